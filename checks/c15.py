"""Interprocedural dataflow (exact linear forms over the input coefficients)
through the JMS to Bern translators for all non-leptonic four-quark flavour
structures of the five-, four- and three-flavour theories; every output form
is compared with the one derived from the Fierz and colour identities of the
operators (spec/wet.py).
The same comparison is made for partial inputs (both halves of the families by
every bit of a binary code)."""
from .wetlab import *
from .c14 import is_fourquark

LEVEL = 'proof'


def run(ctx):
    ctx.par([('%s JMS to Bern, four-quark (%s)' % (eft, pick.__name__),
              lambda eft=eft, pick=pick: route(
                  ctx, eft, 'JMS', 'Bern', wet.jms_to_bern, is_fourquark,
                  pick))
             for eft in WETS for pick in (min, max)])
    ctx.expect_at_least('output coefficients', ctx.obligations, 2000)
