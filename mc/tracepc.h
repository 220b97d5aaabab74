/* Included before every library source of the "cov" flavour, so that cmake's own test programs link. */
__attribute__((weak, no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void) { }
