/* actkern.h -- one call of any kernel of the linear algebra part, for actors.h
 * (KT: type, KN: names, KF: name of the function). */
static void KF(actor* a) {
  static const opk_blas_trans tr[] = { OPK_BLAS_NO_TRANS, OPK_BLAS_TRANS, OPK_BLAS_CONJ_TRANS };
  KT A[36], B[36], C[36], x[18], y[18], al = (KT)(r_p(0.3) ? r_int(-1, 1) : r_norm()), be = (KT)(r_p(0.4) ? r_int(-1, 1) : r_norm());
  opk_index n = r_p(0.1) ? 0 : r_int(1, 6), m = r_int(1, 6), k = r_int(1, 6), ix = r_p(0.5) ? 1 : r_bool() ? r_int(2, 3) : -r_int(1, 3), iy = r_p(0.5) ? 1 : r_bool() ? 2 : -2, i, ld = r_p(0.05) ? 0 : 6;
  opk_blas_uplo up = r_bool() ? OPK_BLAS_UPPER : OPK_BLAS_LOWER; opk_blas_diag dg = r_bool() ? OPK_BLAS_UNIT : OPK_BLAS_NON_UNIT; opk_blas_trans t1 = tr[r_int(0, 2)], t2 = tr[r_int(0, 2)];
  for (i = 0; i < 36; ++i) { A[i] = (KT)r_norm(); B[i] = (KT)r_norm(); C[i] = (KT)r_norm(); } for (i = 0; i < 18; ++i) { x[i] = (KT)r_norm(); y[i] = (KT)r_norm(); } for (i = 0; i < 6; ++i) A[7*i] += 4;
  switch (r_int(0, 17)) {
  case 0: ah_d(a, KN(amax)(n, x, labs(ix))); ah_u(a, KIAMAX(n, x, labs(ix))); break;
  case 1: ah_d(a, KN(asum)(n, x, labs(ix))); ah_d(a, KN(sum)(n, x, labs(ix))); break;
  case 2: KN(axpy)(n, al, x, ix, y, iy); break;
  case 3: KN(copy)(n, x, ix, y, iy); break;
  case 4: ah_d(a, KN(dot)(n, x, ix, y, iy)); break;
  case 5: ah_d(a, KN(nrm2)(n, x, labs(ix))); break;
  case 6: KN(scal)(n, al, x, labs(ix)); break;
  case 7: KN(swap)(n, x, ix, y, iy); break;
  case 8: KN(zero)(n, x, labs(ix)); break;
  case 9: case 10: ah_u(a, KN(gemv)(t1, m, n, al, A, ld, x, ix, be, y, iy)); break;
  case 11: ah_u(a, KN(trmv)(up, t1, dg, n, A, ld, x, ix)); break;
  case 12: ah_u(a, KN(trsv)(up, t1, dg, n, A, ld, x, ix)); break;
  case 13: case 14: ah_u(a, KN(gemm)(t1, t2, m, n, k, al, A, ld, B, 6, be, C, 6)); break;
  case 15: case 16: ah_u(a, KN(syrk)(up, t1, n, k, al, A, ld, be, C, 6)); break;
  default: if (r_bool()) for (i = 0; i < 6; ++i) C[7*i] += 6; ah_u(a, KN(potf2)(up, n, C, ld)); break;
  }
  for (i = 0; i < 36; ++i) { ah_d(a, A[i]); ah_d(a, C[i]); } for (i = 0; i < 18; ++i) { ah_d(a, x[i]); ah_d(a, y[i]); }
}
#undef KN
#undef KT
#undef KF
#undef KIAMAX
