from common_checks import *
c = Check("C07", BASE + "Workload: static objects (file scope and local), initialisers, string literals.", quick_s=70, thorough_s=900)
campaign(c, [(3, S.u_globals), (2, S.u_strings), (2, S.u_statics), (1, attr(Z.hugedata, whole=True))], nconf=2)
c.finish(min_evals=20)
