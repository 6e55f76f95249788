COMMON_ASSUMPTIONS = ["64-bit Linux, 32-bit SCOTCH_Num, SCOTCH_DEBUG_ALL build with AddressSanitizer from /repo's own CMake files",
                      "exploration: the property is shown on the generated cases only"]
CONF = {
  "G01": dict(src=["props/g_io.cpp"], cases=(40000, 600000)),
  "G02": dict(src=["props/g_io.cpp"], cases=(60000, 800000)),
  "G03": dict(src=["props/g_io.cpp"], cases=(40000, 600000)),
  "G04": dict(src=["props/g_ops.cpp"], cases=(40000, 600000)),
  "G05": dict(src=["props/g_ops.cpp"], cases=(40000, 600000)),
  "G06": dict(src=["props/g_ops.cpp"], cases=(40000, 600000)),
  "G07": dict(src=["props/g_ops.cpp"], cases=(30000, 400000)),
  "P01": dict(src=["props/p_map.cpp"], arch=True, cases=(60000, 900000)),
  "P03": dict(src=["props/p_map.cpp"], arch=True, cases=(60000, 900000)),
  "P04": dict(src=["props/p_map.cpp"], arch=True, cases=(60000, 900000)),
  "P05": dict(src=["props/p_map.cpp"], arch=True, cases=(60000, 900000)),
  "P02": dict(src=["props/p_map2.cpp"], arch=True, cases=(4500, 60000)),
  "P06": dict(src=["props/p_map2.cpp"], arch=True, cases=(60000, 900000)),
  "P07": dict(src=["props/p_map2.cpp"], arch=True, cases=(60000, 900000)),
  "A01": dict(src=["props/a_arch.cpp"], arch=True, cases=(60000, 900000)),
  "A02": dict(src=["props/a_arch.cpp"], arch=True, cases=(60000, 900000)),
  "A03": dict(src=["props/a_arch.cpp"], arch=True, cases=(60000, 900000)),
  "O01": dict(src=["props/o_order.cpp"], arch=True, cases=(50000, 700000)),
  "O02": dict(src=["props/o_order.cpp"], arch=True, cases=(2800, 40000)),
  "O03": dict(src=["props/o_order.cpp"], arch=True, cases=(60000, 900000)),
  "M01": dict(src=["props/m_mesh.cpp"], arch=True, cases=(60000, 900000)),
  "M02": dict(src=["props/m_mesh.cpp"], arch=True, cases=(60000, 900000)),
  "M03": dict(src=["props/m_mesh.cpp"], arch=True, cases=(50000, 700000)),
  "G08": dict(src=["props/g_ext.cpp"], cases=(60000, 900000)),
  "G09": dict(src=["props/g_fuzz.cpp"], arch=True, cases=(300000, 6000000), env=dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=256")),
  "R01": dict(src=["props/r_ctx.cpp"], arch=True, cases=(25000, 600000), ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=realloc"]),
  "C01": dict(src=["props/r_ctx.cpp"], arch=True, cases=(12000,300000), cxxflags=["-DVF_SCHED"], flaky_is_failure=True, ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=realloc", "-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock", "-Wl,--wrap=pthread_cond_broadcast", "-Wl,--wrap=pthread_cond_wait"]),
  "L01": dict(src=["props/l_leak.cpp", "props/g_io.cpp", "props/g_ops.cpp", "props/g_ext.cpp", "props/g_fuzz.cpp", "props/p_map.cpp", "props/p_map2.cpp", "props/a_arch.cpp", "props/o_order.cpp", "props/m_mesh.cpp", "props/s_strat.cpp", "props/r_ctx.cpp"], arch=True, leak=True, cases=(20000, 400000), ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=realloc"]),
  "S01": dict(src=["props/s_strat.cpp"], arch=True, cases=(60000, 900000)),
  "X01": dict(src=["props/x_metis.cpp"], arch=True, cases=(90000, 1200000), libs=["@H@/libmetis3.a", "libscotchmetisv5.a", "libscotch.a"],
              prelink=["nm -g --defined-only @D@/lib/libscotchmetisv3.a | awk 'NF==3{print $3, \"v3_\" $3}' | sort -u > @H@/metis3.syms && objcopy --redefine-syms=@H@/metis3.syms @D@/lib/libscotchmetisv3.a @H@/libmetis3.a"]),
  "X02": dict(src=["props/x_esmumps.cpp"], cases=(45000, 900000), libs=["libesmumps.a", "libscotch.a"]),
  "D01": dict(src=["props/d_graph.cpp"], kind="mpi", cases=(16000, 800000), nps=[2, 3, 4, 1, 5, 3, 6, 2], batch=250, par=4),
  "D02": dict(src=["props/d_graph.cpp"], kind="mpi", cases=(18000, 900000), nps=[2, 3, 4, 1, 5, 3, 6, 2], batch=250, par=4),
  "D03": dict(src=["props/d_ops.cpp"], kind="mpi", cases=(10000, 500000), nps=[2, 3, 4, 1, 5, 3, 6, 2], batch=250, par=4),
  "D04": dict(src=["props/d_ops.cpp"], kind="mpi", cases=(10000, 500000), nps=[2, 3, 4, 1, 5, 3, 6, 2], batch=250, par=4),
  "D05": dict(src=["props/d_map.cpp"], kind="mpi", arch=True, cases=(6000, 300000), nps=[2, 3, 4, 1, 5, 3, 6, 2], batch=150, par=4),
  "D06": dict(src=["props/d_order.cpp"], kind="mpi", arch=True, cases=(6000, 300000), nps=[2, 3, 4, 1, 5, 3, 6, 2], batch=150, par=4),
  "D07": dict(src=["props/d_parmetis.cpp"], kind="mpi", cases=(6000, 300000), nps=[2, 4, 3, 1, 4, 8, 6, 2], batch=150, par=4, libs=["libptscotchparmetisv3.a", "libptscotch.a", "libscotch.a"]),
  "D08": dict(src=["props/d_graph.cpp"], kind="mpi", cases=(24000, 1200000), nps=[2, 3, 4, 1, 5, 3, 6, 2], batch=250, par=4),
}
