from common_checks import *
c = Check("C02", BASE + "Workload: conversions between every pair of arithmetic types in every converting context.", quick_s=70, thorough_s=900)
campaign(c, [(1, u_conv)], nconf=2)
c.finish(min_evals=20)
