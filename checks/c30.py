"""Interprocedural dataflow (exact linear forms over the input coefficients)
through the JMS to EOS and JMS to FormFlavor translators; every output form is
compared with the reference derived in spec/wet.py.
The same comparison is made for partial inputs (both halves of the families by
every bit of a binary code)."""
from .wetlab import *

LEVEL = 'proof'


def run(ctx):
    ctx.par([('WET JMS to %s (%s)' % (dst, pick.__name__),
              lambda dst=dst, f=f, pick=pick: route(
                  ctx, 'WET', 'JMS', dst, f, None, pick))
             for pick in (min, max)
             for dst, f in (('EOS', wet.jms_to_eos),
                            ('formflavor', wet.jms_to_formflavor))])
    ctx.expect_at_least('output coefficients', ctx.obligations, 200)
