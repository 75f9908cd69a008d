from minisage import fsolve
