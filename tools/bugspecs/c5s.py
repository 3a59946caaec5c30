I = "src/vmecpp/cpp/vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc"
BUGS = [
("sy_solve", "C05", [(I, """  }  // mn
#ifdef _OPENMP
#pragma omp barrier
#endif  // _OPENMP

  // re-distribute solution""", """  }  // mn

  // re-distribute solution""")]),
]
