"""Maps properties to checks."""

from __future__ import annotations

import importlib

from harness.common import Ctx

MODULES = {
    "c_recipe": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"],
    "c_select": ["C14", "C15", "C16"],
    "c_subst": ["C13"],
    "c_deps": ["C17", "C18"],
    "c_convert": ["C19"],
    "c_bump": ["C22"],
    "c_fetch": ["C23", "C24"],
    "c_scan": ["C26", "C27"],
    "c_graph": ["C25"],
    "c_misc": ["C28", "C30"],
    "c_commands": ["C20", "C21", "C29"],
}


def run(ctx: Ctx) -> None:
    for mod, props in MODULES.items():
        if ctx.prop in props:
            getattr(importlib.import_module(f"harness.{mod}"), f"check_{ctx.prop}")(ctx)
            return
    raise SystemExit(f"no check for {ctx.prop}")
