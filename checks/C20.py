from common_checks import *
c = Check("C20", BASE + "Workload: scopes, name spaces, declarators.", quick_s=70, thorough_s=900)
campaign(c, [(2, X.u_scopes), (2, X.u_decls), (3, X.u_names)], nconf=2)
c.finish(min_evals=20)
