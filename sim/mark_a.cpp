// Linked before the code under test: where its writable static data begins.
extern "C" { char sim_data_lo[16] = {1}; char sim_bss_lo[16]; }
