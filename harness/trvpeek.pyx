# cython: language_level=3
# The C++ parameters behind a Python parameter set, as the algorithms see them.
from libcpp.string cimport string
from triumvirate.parameters cimport ParameterSet
cdef extern from "peek.hpp":
    string peek_(void*)
def peek(ParameterSet p):
    return peek_(<void*> p.thisptr).decode()
