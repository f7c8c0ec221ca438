from common_checks import *
c = Check("C12", BASE + "Workload: printf calls.", quick_s=70, thorough_s=900)
campaign(c, [(3, L.u_printf), (1, L.u_printf_hist)], nconf=2)
c.finish(min_evals=20)
