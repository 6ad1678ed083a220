#!/usr/bin/env python3
"""python3 tools/check.py <property id>: decide one property on /repo's working tree."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

REGISTRY = {
    "C01": "sup", "C02": "sup", "C03": "sup", "C04": "sup", "C05": "sup", "C06": "sup", "C07": "sup", "C08": "sup", "C09": "sup",
    "C11": "sup", "C14": "sup", "C15": "sup", "C16": "sup",
    "C17": "launch",
    "C18": "secure",
    "C10": "jsonrule", "C12": "config", "C13": "config",
    "C20": "bus", "C21": "bus", "C22": "bus", "C23": "bus",
    "C24": "lin", "C43": "lin", "C28": "event",
    "C25": "proc", "C26": "proc", "C27": "proc",
    "C30": "fsm", "C31": "fsm",
    "C50": "stat", "C51": "stat", "C52": "stat", "C53": "stat", "C54": "stat",
    "C40": "metric", "C41": "metric", "C42": "metric", "C44": "metric",
}

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + REGISTRY[pid])
    vlib.main(lambda: mod.check(pid), pid)
