from common_checks import *
c = Check("C04", BASE + "Workload: statement nests with loops, switches, gotos and side-effecting conditions; complete programs with random variations (corpus/programs).", quick_s=70, thorough_s=900)
campaign(c, [(5, K.u_control), (1, idiom_program)], nconf=3)
c.finish(min_evals=20)
