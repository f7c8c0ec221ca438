from common_checks import *
import units_graph as G
c = Check("C08", "programs from every generator of the suite and complete programs with random variations (corpus/programs); each is compiled with all 8 combinations of the optimisation switches, with the default switches, and four times over with the same switches "
          "(the compiler's internal iteration orders vary from process to process), and all runs must show the same output, exit status and trap, the same as the reference. Non-trivial: the reference "
          "found the program free of undefined behaviour and all builds ran to the end; distinct by program text.", quick_s=70, thorough_s=1200)
allmk = [(2, K.u_control), (1, M.u_memory), (1, M.u_bytes), (1, M.u_list), (1, F.u_params), (1, F.u_recur), (2, F.u_frames), (2, F.u_tail), (2, F.u_mutual),
         (1, S.u_globals), (1, S.u_strings), (1, L.u_printf), (1, L.u_text), (1, X.u_scopes), (1, X.u_decls), (1, Y.u_ptypes), (1, u_float), (1, u_arith), (1, u_conv),
         (0.5, Z.u_locals), (0.5, Z.u_bigbody), (0.5, Z.u_params_many), (2, idiom_program)]
plan = CONFIGS + [("default", []), ("TUS again", CONFIG["TUS"]), ("TUS again", CONFIG["TUS"]), ("T-S again", CONFIG["T-S"])]
import runner
runner.config_plan = lambda i, n: plan
campaign(c, allmk, units=(1, 2), corpus_configs=plan)
c.finish(min_evals=10)
