/* operation codes, in the order of checks/c09.py */
enum { OP_NONE,
 OP_read, OP_write, OP_add, OP_sub, OP_and, OP_or, OP_xor, OP_fetch_add, OP_fetch_sub, OP_fetch_and, OP_fetch_or, OP_fetch_xor,
 OP_add_fetch, OP_sub_fetch, OP_and_fetch, OP_or_fetch, OP_xor_fetch, OP_xchg, OP_cmpxchg, OP_try_cmpxchg,
 OP_bset, OP_bclr, OP_bflip, OP_btest, OP_btest_set, OP_btest_clr, OP_btest_flip, OP_bchange, OP_btest_change,
 OP_rget, OP_rset, OP_radd, OP_rinc, OP_rfetch_add, OP_rfetch_inc,
 OP_rsub, OP_rdec, OP_rsub_test, OP_rdec_test, OP_rfetch_sub, OP_rfetch_dec, OP_rfetch_sub_test, OP_rfetch_dec_test,
 OP_raddnz, OP_rincnz, OP_raddnz_test, OP_rincnz_test, OP_rfetch_addnz, OP_rfetch_incnz, OP_rfetch_addnz_test, OP_rfetch_incnz_test };
int atomic_op(int op, long *w, long *bits, long a, long b, long *v);
