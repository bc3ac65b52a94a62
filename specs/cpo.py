"""C26: the edge-list access functions (lemma functions of drivers/lem26.cpp)"""
from .common import *
from cppvc.unit import Lemma

REG.setdefault("C26", []).append(Lemma("edge-list access", "lem26", "vcd::C26_", fns=["graph::_cpo_impls::_source_id::_fn::operator()", "graph::_cpo_impls::_target_id::_fn::operator()",
                                                                        "graph::_cpo_impls::_edge_value::_fn::operator()", "graph::edge_list::edge_descriptor"]))
REG.setdefault("C25", []).append(Lemma("descriptors and access functions", "lem25", "vcd::C25_", fns=["graph::adj_list::vertex_descriptor", "graph::adj_list::edge_descriptor",
    "graph::adj_list::vertex_descriptor_view", "graph::adj_list::edge_descriptor_view", "graph::adj_list::_cpo_impls"]))
