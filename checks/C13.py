from common_checks import *
c = Check("C13", BASE + "Workload: library functions.", quick_s=70, thorough_s=900)
campaign(c, [(3, L.u_strto), (3, L.u_string_fns), (1, L.u_ctype), (2, L.u_text)], nconf=2)
c.finish(min_evals=20)
