from meta import P
PROPS = P
