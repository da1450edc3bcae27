"""loads every specification file"""
import importlib

FILES = ["spec_ls", "spec_run", "spec_run2", "spec_tcg", "spec_par", "spec_qn", "spec_stiefel", "spec_stiefel2", "spec_base", "spec_sphere", "spec_spd", "spec_prob","spec_nsm","spec_prod", "spec_mem", "spec_mem2", "spec_mem3", "spec_elem", "spec_util", "spec_spline", "spec_sparse", "spec_grass", "spec_stx", "spec_sfrq", "spec_q2f", "spec_fre", "spec_numgrad", "spec_matcomp", "spec_karcher", "spec_nsmrun", "spec_sr1tr"]


def load():
    for f in FILES:
        importlib.import_module(f)
