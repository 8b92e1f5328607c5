"""Images that are scaled down (C15): theory over the block code of unit codec."""
from extract import Unit, proved
from units import payload as P
from units.comp_theory import GRID, BYTES, PAY
from units.level_theory import LEVEL
from units.pass_theory import PASS
from units.down_theory import DOWN
UNIT = Unit('down', P.ITEMS, [], prelude=P.ALLT + proved(LEVEL + GRID + BYTES + PAY + PASS, 'payload') + DOWN)
