"""Interprocedural dataflow over the WET basis translation functions.  Every
input coefficient is an independent abstract value, the SM parameters and the
scale are abstract positive constants; the analysis propagates exact linear
forms through the translator selected by the registry and compares the form
of every output coefficient with the form derived from the operator
definitions (spec/wet.py: Fierz and colour identities, normalisations).
Conditions on the scale and on parameters partition the trace.
The same comparison is made for partial inputs (both halves of the families by
every bit of a binary code)."""
from .wetlab import *

LEVEL = 'proof'


def is_fourquark(k):
    import re
    return bool(re.match(r'^\d+p?[udscb]{4}$', k)) and not is_df2(k)


def is_df2(k):
    import re
    m = re.match(r'^\d+p?([dsb]{2})([dsb]{2})$', k)
    return bool(m) and m.group(1) == m.group(2)


def run(ctx):
    jobs = []
    for eft in WETS:
        for pick in (min, max):
            jobs.append(('%s JMS to Bern, two-quark and Delta F=2 (%s)'
                         % (eft, pick.__name__),
                         lambda eft=eft, pick=pick: route(
                             ctx, eft, 'JMS', 'Bern', wet.jms_to_bern,
                             lambda k: not is_fourquark(k), pick)))
            jobs.append(('%s JMS to flavio (%s)' % (eft, pick.__name__),
                         lambda eft=eft, pick=pick: route(
                             ctx, eft, 'JMS', 'flavio', wet.jms_to_flavio,
                             None, pick)))
    ctx.par(jobs)
    ctx.expect_at_least('output coefficients', ctx.obligations, 5000)
