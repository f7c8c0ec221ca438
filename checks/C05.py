from common_checks import *
c = Check("C05", BASE + "Workload: objects, pointers, arrays, structures, unions, pointers and null pointer constants in every operator; complete programs with random variations (corpus/programs).", quick_s=70, thorough_s=900)
campaign(c, [(4, M.u_memory), (2, M.u_bytes), (2, M.u_list), (2, M.u_locals), (1.5, Y.u_ptypes), (1.5, idiom_program)], nconf=2)
c.finish(min_evals=20)
