#include <QAction>
#include <QtWidgets/QMessageBox>