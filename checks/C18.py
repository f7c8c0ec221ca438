from common_checks import *
c = Check("C18", BASE + "Workload: programs at encoding and layout boundaries.", quick_s=70, thorough_s=900)
campaign(c, [(1, f) for f in Z.ALLSCALE] + [(1, attr(Z.hugedata, whole=True))], nconf=2)
c.finish(min_evals=20)
