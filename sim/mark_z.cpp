// Linked after the code under test: where its writable static data ends.
extern "C" { char sim_data_hi[16] = {1}; char sim_bss_hi[16]; }
