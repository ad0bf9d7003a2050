#!/usr/bin/env python3
"""Run the check of one property: check.py <property id>"""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib

GROUPS = {
    "C01": "c_body", "C02": "c_body", "C05": "c_body", "C03": "c_readfrom", "C04": "c_readfrom",
    "C06": "c_barc", "C08": "c_barc", "C14": "c_barc",
    "C12": "c_convert", "C13": "c_convert",
    "C11": "c_parse", "C30": "c_parse", "C31": "c_life", "C32": "c_net",
    "C07": "c_hist", "C09": "c_hist", "C10": "c_hist",
    "C15": "c_async", "C16": "c_async", "C17": "c_async", "C18": "c_async", "C19": "c_async",
    "C20": "c_small", "C21": "c_small", "C28": "c_small",
    "C22": "c_decode", "C33": "c_errors", "C34": "c_errors", "C35": "c_system", "C36": "c_builds", "C23": "c_net", "C24": "c_net",
    "C25": "c_net", "C26": "c_net", "C27": "c_net", "C29": "c_net",
}

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module(GROUPS[pid])
    vlib.main(pid, getattr(mod, pid.lower()))
