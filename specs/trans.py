"""C24: the transpose view (lemma functions of drivers/lem24.cpp)"""
from .common import *
from cppvc.unit import Lemma
REG.setdefault("C24", []).append(Lemma("transpose view", "lem24", "vcd::C24_"))
