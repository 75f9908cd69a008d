from minisage import *
