from common_checks import *
c = Check("C06", BASE + "Workload: calls, recursion, frames; complete programs with random variations (corpus/programs).", quick_s=70, thorough_s=900)
campaign(c, [(3, F.u_params), (2, F.u_recur), (2, F.u_frames), (1, F.u_tail), (1, F.u_args), (1.5, idiom_program)], nconf=2)
c.finish(min_evals=20)
