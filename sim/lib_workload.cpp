// A client of the parsing library: executes a script of operations on parser objects and records, per object,
// every return value, every diagnostic delivered and everything the public accessors tell about the schemas.
#include "scen.h"
#include "commsdsl/parse/ParseProtocol.h"
#include "commsdsl/parse/ParseBitfieldField.h"
#include "commsdsl/parse/ParseBundleField.h"
#include "commsdsl/parse/ParseDataField.h"
#include "commsdsl/parse/ParseEnumField.h"
#include "commsdsl/parse/ParseFloatField.h"
#include "commsdsl/parse/ParseIntField.h"
#include "commsdsl/parse/ParseListField.h"
#include "commsdsl/parse/ParseOptionalField.h"
#include "commsdsl/parse/ParseRefField.h"
#include "commsdsl/parse/ParseSetField.h"
#include "commsdsl/parse/ParseStringField.h"
#include "commsdsl/parse/ParseVariantField.h"
#include <sstream>
#include <new>

namespace sim {
namespace {
using namespace commsdsl::parse;

struct Out {
    std::string s; int depth = 0;
    void nl() { s += '\n'; s.append((size_t)depth, ' '); }
    void raw(const char* k) { s += ' '; s += k; s += '='; }
    void p(const char* k, const std::string& v) { if (v.empty()) return; raw(k); s += '\''; s += v; s += '\''; }
    void p(const char* k, const char* v) { p(k, std::string(v)); }
    void p(const char* k, bool v) { if (v) { raw(k); s += '1'; } }
    void p(const char* k, double v) { char b[48]; snprintf(b, sizeof b, "%a", v); raw(k); s += b; }
    template <class T, class = std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> void p(const char* k, T v) { raw(k); s += std::to_string(v); }
    template <class T, class = std::enable_if_t<std::is_enum_v<T>>, class = void> void p(const char* k, T v) { p(k, (long)v); }
    void p(const char* k, const std::multimap<std::string, std::string>& m) { for (auto& e : m) { raw(k); s += e.first + ":'" + e.second + "'"; } }
    void p(const char* k, const std::vector<std::string>& m) { for (auto& e : m) { raw(k); s += "'" + e + "'"; } }
    void p(const char* k, const std::vector<std::uint8_t>& m) { if (m.empty()) return; raw(k); char b[4]; for (auto e : m) { snprintf(b, sizeof b, "%02x", e); s += b; } }
};
struct In { Out& o; explicit In(Out& x) : o(x) { ++o.depth; } ~In() { --o.depth; } };

void cond(Out& o, const char* k, const ParseOptCond& c) {
    if (!c.parseValid()) return;
    In in(o); o.nl(); o.s += k;
    if (c.parseKind() == ParseOptCond::ParseKind::Expr) {
        ParseOptCondExpr e(c);
        o.p("l", e.parseLeft()); o.p("op", e.parseOp()); o.p("r", e.parseRight());
        for (auto& i : {e.parseLeftInfo(), e.parseRightInfo()}) { o.p("t", i.m_type); o.p("m", i.m_mode); o.p("a", i.m_access); }
    } else { ParseOptCondList l(c); o.p("type", l.parseType()); for (auto& x : l.parseConditions()) cond(o, "c", x); }
}
void aliases(Out& o, const std::vector<ParseAlias>& v) {
    for (auto& a : v) { In in(o); o.nl(); o.s += "alias"; o.p("name", a.parseName()); o.p("desc", a.parseDescription()); o.p("of", a.parseFieldName()); o.p("xa", a.parseExtraAttributes()); o.p("xe", a.parseExtraElements()); }
}
void field(Out& o, const char* role, const ParseField& f);
void inner(Out& o, const char* role, const ParseField& f) {
    if (!f.parseValid()) return;
    auto ref = f.parseExternalRef();
    if (!ref.empty()) { In in(o); o.nl(); o.s += role; o.p("ref", ref); return; }
    field(o, role, f);
}
void ver(Out& o, unsigned since, unsigned dep) { o.p("since", since); if (dep != ParseProtocol::parseNotYetDeprecated()) o.p("dep", dep); }
void intLike(Out& o, const ParseEndian e) { o.p("endian", (unsigned)e); }
void field(Out& o, const char* role, const ParseField& f) {
    if (!f.parseValid()) return;
    In in(o); o.nl(); o.s += role;
    o.p("name", f.parseName()); o.p("dn", f.parseDisplayName()); o.p("desc", f.parseDescription()); o.p("kind", f.parseKind()); o.p("sem", f.parseSemanticType());
    o.p("min", f.parseMinLength()); o.p("max", f.parseMaxLength()); o.p("bits", f.parseBitLength()); ver(o, f.parseSinceVersion(), f.parseDeprecatedSince()); o.p("rem", f.parseIsDeprecatedRemoved());
    o.p("ref", f.parseExternalRef()); o.p("pseudo", f.parseIsPseudo()); o.p("fixed", f.parseIsFixedValue()); o.p("cust", f.parseIsCustomizable()); o.p("foi", f.parseIsFailOnInvalid()); o.p("force", f.parseIsForceGen()); o.p("pos", f.parseSchemaPos());
    for (auto v : {f.parseValueOverride(), f.parseReadOverride(), f.parseWriteOverride(), f.parseRefreshOverride(), f.parseLengthOverride(), f.parseValidOverride(), f.parseNameOverride()}) if (v != ParseOverrideType_Any) o.p("ovr", (unsigned)v);
    o.p("copy", f.parseCopyCodeFrom()); o.p("xa", f.parseExtraAttributes()); o.p("xe", f.parseExtraElements());
    using K = ParseField::ParseKind;
    switch (f.parseKind()) {
    case K::Int: {
        ParseIntField x(f); o.p("type", x.parseType()); intLike(o, x.parseEndian()); o.p("off", x.parseSerOffset()); o.p("minv", x.parseMinValue()); o.p("maxv", x.parseMaxValue()); o.p("def", x.parseDefaultValue());
        o.p("sn", x.parseScaling().first); o.p("sd", x.parseScaling().second); o.p("units", (unsigned)x.parseUnits()); o.p("vcv", x.parseValidCheckVersion()); o.p("dec", x.parseDisplayDecimals()); o.p("doff", x.parseDisplayOffset()); o.p("se", x.parseSignExt()); o.p("all", x.parseAvailableLengthLimit());
        for (auto& r : x.parseValidRanges()) { o.p("r", r.m_min); o.p("-", r.m_max); ver(o, r.m_sinceVersion, r.m_deprecatedSince); }
        for (auto& s : x.parseSpecialValues()) { o.p("sp", s.first); o.p("v", s.second.m_value); ver(o, s.second.m_sinceVersion, s.second.m_deprecatedSince); o.p("d", s.second.m_description); o.p("n", s.second.m_displayName); }
        break; }
    case K::Enum: {
        ParseEnumField x(f); o.p("type", x.parseType()); intLike(o, x.parseEndian()); o.p("def", x.parseDefaultValue()); o.p("nu", x.parseIsNonUniqueAllowed()); o.p("u", x.parseIsUnique()); o.p("vcv", x.parseValidCheckVersion()); o.p("hex", x.parseHexAssign()); o.p("all", x.parseAvailableLengthLimit());
        for (auto& s : x.parseValues()) { o.p("v", s.first); o.p("=", s.second.m_value); ver(o, s.second.m_sinceVersion, s.second.m_deprecatedSince); o.p("d", s.second.m_description); o.p("n", s.second.m_displayName); }
        for (auto& s : x.parseRevValues()) { o.p("rv", s.first); o.p("=", s.second); }
        break; }
    case K::Set: {
        ParseSetField x(f); o.p("type", x.parseType()); intLike(o, x.parseEndian()); o.p("def", x.parseDefaultBitValue()); o.p("res", x.parseReservedBitValue()); o.p("nu", x.parseIsNonUniqueAllowed()); o.p("u", x.parseIsUnique()); o.p("vcv", x.parseValidCheckVersion()); o.p("all", x.parseAvailableLengthLimit());
        for (auto& s : x.parseBits()) { o.p("b", s.first); o.p("i", s.second.m_idx); ver(o, s.second.m_sinceVersion, s.second.m_deprecatedSince); o.p("d", s.second.m_description); o.p("n", s.second.m_displayName); o.p("dv", s.second.m_defaultValue); o.p("r", s.second.m_reserved); o.p("rv", s.second.m_reservedValue); }
        for (auto& s : x.parseRevBits()) { o.p("rb", s.first); o.p("=", s.second); }
        break; }
    case K::Float: {
        ParseFloatField x(f); o.p("type", x.parseType()); intLike(o, x.parseEndian()); o.p("def", x.parseDefaultValue()); o.p("vcv", x.parseValidCheckVersion()); o.p("units", (unsigned)x.parseUnits()); o.p("dec", x.parseDisplayDecimals()); o.p("nus", x.parseHasNonUniqueSpecials());
        for (auto& r : x.parseValidRanges()) { o.p("r", r.m_min); o.p("-", r.m_max); ver(o, r.m_sinceVersion, r.m_deprecatedSince); }
        for (auto& s : x.parseSpecialValues()) { o.p("sp", s.first); o.p("v", s.second.m_value); ver(o, s.second.m_sinceVersion, s.second.m_deprecatedSince); o.p("d", s.second.m_description); o.p("n", s.second.m_displayName); }
        break; }
    case K::Bitfield: { ParseBitfieldField x(f); intLike(o, x.parseEndian()); cond(o, "valid", x.parseValidCond()); for (auto& m : x.parseMembers()) field(o, "m", m); break; }
    case K::Bundle: { ParseBundleField x(f); cond(o, "valid", x.parseValidCond()); aliases(o, x.parseAliases()); for (auto& m : x.parseMembers()) field(o, "m", m); break; }
    case K::String: {
        ParseStringField x(f); o.p("def", x.parseDefaultValue()); o.p("enc", x.parseEncodingStr()); o.p("fl", x.parseFixedLength()); o.p("z", x.parseHasZeroTermSuffix()); o.p("det", x.parseDetachedPrefixFieldName());
        for (auto& v : x.parseValidValues()) { o.p("vv", v.m_value); ver(o, v.m_sinceVersion, v.m_deprecatedSince); }
        if (x.parseHasLengthPrefixField()) inner(o, "len", x.parseLengthPrefixField());
        break; }
    case K::Data: {
        ParseDataField x(f); o.p("def", x.parseDefaultValue()); o.p("fl", x.parseFixedLength()); o.p("det", x.parseDetachedPrefixFieldName());
        for (auto& v : x.parseValidValues()) { o.p("vv", v.m_value); ver(o, v.m_sinceVersion, v.m_deprecatedSince); }
        if (x.parseHasLengthPrefixField()) inner(o, "len", x.parseLengthPrefixField());
        break; }
    case K::List: {
        ParseListField x(f); o.p("fc", x.parseFixedCount()); o.p("dc", x.parseDetachedCountPrefixFieldName()); o.p("dl", x.parseDetachedLengthPrefixFieldName()); o.p("de", x.parseDetachedElemLengthPrefixFieldName()); o.p("dt", x.parseDetachedTermSuffixFieldName()); o.p("efl", x.parseElemFixedLength());
        inner(o, "elem", x.parseElementField());
        if (x.parseHasCountPrefixField()) inner(o, "count", x.parseCountPrefixField());
        if (x.parseHasLengthPrefixField()) inner(o, "len", x.parseLengthPrefixField());
        if (x.parseHasElemLengthPrefixField()) inner(o, "elen", x.parseElemLengthPrefixField());
        if (x.parseHasTermSuffixField()) inner(o, "term", x.parseTermSuffixField());
        break; }
    case K::Ref: { ParseRefField x(f); inner(o, "to", x.parseField()); break; }
    case K::Optional: { ParseOptionalField x(f); o.p("mode", x.parseDefaultMode()); o.p("mrf", x.parseMissingOnReadFail()); o.p("moi", x.parseMissingOnInvalid()); cond(o, "cond", x.parseCond()); inner(o, "of", x.parseField()); break; }
    case K::Variant: { ParseVariantField x(f); o.p("di", x.parseDefaultMemberIdx()); for (auto& m : x.parseMembers()) field(o, "m", m); break; }
    default: break;
    }
}
void layer(Out& o, const ParseLayer& l) {
    In in(o); o.nl(); o.s += "layer"; o.p("name", l.parseName()); o.p("dn", l.parseDisplayName()); o.p("desc", l.parseDescription()); o.p("kind", l.parseKind()); o.p("xa", l.parseExtraAttributes()); o.p("xe", l.parseExtraElements());
    if (l.parseHasField()) inner(o, "field", l.parseField());
    using K = ParseLayer::ParseKind;
    if (l.parseKind() == K::Custom) { ParseCustomLayer x(l); o.p("sem", x.parseSemanticLayerType()); o.p("from", x.parseChecksumFromLayer()); o.p("until", x.parseChecksumUntilLayer()); }
    if (l.parseKind() == K::Sync) { ParseSyncLayer x(l); o.p("seek", x.parseSeekField()); o.p("from", x.parseFromLayer()); o.p("vbr", x.parseVerifyBeforeRead()); o.p("after", x.parseIsAfterPayload()); if (x.parseHasEscField()) inner(o, "esc", x.parseEscField()); }
    if (l.parseKind() == K::Checksum) { ParseChecksumLayer x(l); o.p("alg", x.parseAlg()); o.p("cn", x.parseCustomAlgName()); o.p("from", x.parseFromLayer()); o.p("until", x.parseUntilLayer()); o.p("vbr", x.parseVerifyBeforeRead()); }
    if (l.parseKind() == K::Value) { ParseValueLayer x(l); o.p("fn", x.parseFieldName()); o.p("fi", x.parseFieldIdx()); o.p("ps", x.parsePseudo()); for (auto& i : x.parseInterfaces()) o.p("if", i.parseName()); }
}
void message(Out& o, const ParseMessage& m) {
    In in(o); o.nl(); o.s += "message"; o.p("name", m.parseName()); o.p("dn", m.parseDisplayName()); o.p("desc", m.parseDescription()); o.p("id", m.parseId()); o.p("order", m.parseOrder()); o.p("min", m.parseMinLength()); o.p("max", m.parseMaxLength());
    ver(o, m.parseSinceVersion(), m.parseDeprecatedSince()); o.p("rem", m.parseIsDeprecatedRemoved()); o.p("ref", m.parseExternalRef()); o.p("cust", m.parseIsCustomizable()); o.p("foi", m.parseIsFailOnInvalid()); o.p("sender", m.parseSender());
    for (auto v : {m.parseReadOverride(), m.parseWriteOverride(), m.parseRefreshOverride(), m.parseLengthOverride(), m.parseValidOverride(), m.parseNameOverride()}) if (v != ParseOverrideType_Any) o.p("ovr", (unsigned)v);
    o.p("copy", m.parseCopyCodeFrom()); o.p("pl", m.parsePlatforms()); o.p("xa", m.parseExtraAttributes()); o.p("xe", m.parseExtraElements());
    cond(o, "construct", m.parseConstruct()); cond(o, "read", m.parseReadCond()); cond(o, "valid", m.parseValidCond());
    aliases(o, m.parseAliases());
    for (auto& f : m.parseFields()) field(o, "field", f);
}
void ns(Out& o, const ParseNamespace& n) {
    In in(o); o.nl(); o.s += "ns"; o.p("name", n.parseName()); o.p("dn", n.parseDisplayName()); o.p("desc", n.parseDescription()); o.p("ref", n.parseExternalRef()); o.p("xa", n.parseExtraAttributes()); o.p("xe", n.parseExtraElements()); o.p("hm", n.parseHasMessages());
    for (auto& x : n.parseFields()) field(o, "field", x);
    for (auto& x : n.parseMessages()) message(o, x);
    for (auto& x : n.parseInterfaces()) { In in2(o); o.nl(); o.s += "interface"; o.p("name", x.parseName()); o.p("desc", x.parseDescription()); o.p("ref", x.parseExternalRef()); o.p("copy", x.parseCopyCodeFrom()); o.p("xa", x.parseExtraAttributes()); o.p("xe", x.parseExtraElements()); aliases(o, x.parseAliases()); for (auto& f : x.parseFields()) field(o, "field", f); }
    for (auto& x : n.parseFrames()) { In in2(o); o.nl(); o.s += "frame"; o.p("name", x.parseName()); o.p("dn", x.parseDisplayName()); o.p("desc", x.parseDescription()); o.p("ref", x.parseExternalRef()); o.p("xa", x.parseExtraAttributes()); o.p("xe", x.parseExtraElements()); for (auto& l : x.parseLayers()) layer(o, l); }
    for (auto& x : n.parseNamespaces()) ns(o, x);
}
void schema(Out& o, const ParseSchema& s) {
    if (!s.parseValid()) { o.s += "no schema\n"; return; }
    o.s += "schema"; o.p("name", s.parseName()); o.p("dn", s.parseDisplayName()); o.p("desc", s.parseDescription()); o.p("id", s.parseId()); o.p("ver", s.parseVersion()); o.p("dsl", s.parseDslVersion()); o.p("endian", (unsigned)s.parseEndian()); o.p("nu", s.parseNonUniqueMsgIdAllowed());
    o.p("xa", s.parseExtraAttributes()); o.p("xe", s.parseExtraElements()); o.p("pl", s.parsePlatforms()); o.p("ref", s.parseExternalRef());
    for (auto& m : s.parseAllMessages()) o.p("am", m.parseExternalRef());
    for (auto& n : s.parseNamespaces()) ns(o, n);
    o.s += '\n';
}

struct Obj {
    std::unique_ptr<ParseProtocol> p; Out o; unsigned cbs = 0; std::multimap<unsigned, std::string> nest; std::string tag;
    ParseProtocol::ParseSchemasList held;   // schema handles kept from an earlier query
};
struct Client {
    std::map<int, Obj> objs;
    void flush(Obj& x, unsigned upTo) {
        std::vector<std::string> todo; auto e = x.nest.upper_bound(upTo);
        for (auto i = x.nest.begin(); i != e; ++i) todo.push_back(i->second);
        x.nest.erase(x.nest.begin(), e);
        for (auto& t : todo) cmd(t);
    }
    void cmd(const std::string& line) {
        std::istringstream in(line); std::string c; int k = 0; in >> c >> k;
        Obj& b = objs[k];
        if (c == "flush") { flush(b, ~0u); return; }
        if (c == "new") { b.p = std::make_unique<ParseProtocol>(); b.o.s += "new\n"; return; }
        if (!b.p) return;
        if (c == "cb") {
            std::string tag; in >> tag;
            b.p->parseSetErrorReportCallback([this, k, tag](ParseErrorLevel l, const std::string& m) {
                Obj& x = objs[k];
                x.o.s += tag + "|" + std::to_string((unsigned)l) + "|" + m + "\n";
                ++x.cbs;
                flush(x, x.cbs);
            });
        }
        else if (c == "multi") { int v = 0; in >> v; b.p->parseSetMultipleSchemasEnabled(v != 0); b.o.s += "multi " + std::to_string((int)b.p->parseGetMultipleSchemasEnabled()) + "\n"; }
        else if (c == "prefix") { std::string v; in >> v; b.p->parseAddExpectedExtraPrefix(v); }
        else if (c == "parse") { std::string f; in >> f; bool r = b.p->parse(f); b.o.s += "parse " + f + " -> " + std::to_string((int)r) + "\n"; }
        else if (c == "pf") {      // a load during which the storage or the allocator misbehaves
            std::string f; uint32_t n = 0; int act = 0, err = 0; int64_t arg = 0; in >> f >> n >> act >> err >> arg;
            auto* pl = const_cast<Plan*>(t_proc->plan); bool r = false; 
            { InSim g; if (act == 0) { t_proc->failC = n; t_proc->failCSticky = arg != 0; } else { Fault x; x.op = t_proc->opn + n; x.act = (FaultAct)act; x.err = err; x.arg = arg; pl->faults.push_back(x); } }
            b.o.s += "{\n";
            r = b.p->parse(f);
            { InSim g; if (act == 0) t_proc->failC = 0; else pl->faults.pop_back(); t_proc->sticky.clear(); }
            b.o.s += "}\npf " + f + " -> " + std::to_string((int)r) + "\n";
        }
        else if (c == "validate") { bool r = b.p->parseValidate(); b.o.s += "validate -> " + std::to_string((int)r) + "\n"; }
        else if (c == "dump") { b.held = b.p->parseSchemas(); for (auto& s : b.held) schema(b.o, s); if (b.held.empty()) { b.o.s += "no schemas\n"; return; } b.o.s += "last "; auto l = b.p->parseLastParsedSchema(); b.o.s += (l.parseValid() ? l.parseName() : std::string("none")) + "\n"; }
        else if (c == "redump") { for (auto& s : b.held) schema(b.o, s); }
        else if (c == "find") { std::string r; in >> r; auto f = b.p->parseFindField(r); b.o.s += "find " + r; if (f.parseValid()) field(b.o, "found", f); else b.o.s += " none"; b.o.s += '\n'; }
        else if (c == "nest") { unsigned n = 0; in >> n; std::string rest; std::getline(in, rest); b.nest.emplace(n, rest.substr(rest.find_first_not_of(' '))); }
        else if (c == "del") { b.held.clear(); b.p.reset(); b.o.s += "del\n"; }
    }
};
} // namespace

void libMain(const std::vector<std::string>& script, std::string& log) {
    Client c;
    for (auto& l : script) { c.cmd(l); schedPoint(1); }
    for (auto& o : c.objs) { log += "== " + std::to_string(o.first) + "\n"; log += o.second.o.s; }
}
} // namespace sim
