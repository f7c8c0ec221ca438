from common_checks import *
c = Check("C03", BASE + "Workload: floating arithmetic; infinities, NaNs, signed zeros, subnormals and rounding boundaries through every operator and test.", quick_s=70, thorough_s=900)
campaign(c, [(3, u_float), (1, E.u_special)], nconf=2)
c.finish(min_evals=20)
