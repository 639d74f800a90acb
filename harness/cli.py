"""Run `ecalc run` on model files in a scratch directory and read back what it wrote."""
from __future__ import annotations

import contextlib
import sys
import tempfile
from pathlib import Path

from harness.e2e import dump_yaml


class _NoJava:
    """The models run here use no fluids; the Java library is not installed."""

    @staticmethod
    def factory(use_jpype=False):
        return _NoJava

    @staticmethod
    def initialize():
        return contextlib.nullcontext()


class CliRun:
    def __init__(self, code, exception, files, output):
        self.code, self.exception, self.files, self.output = code, exception, files, output


def run_cli(data, files, args=(), stem="model", folder=None, existing=None):
    """`folder` is the output folder relative to the scratch directory (None: the default). Returns texts by relative path."""
    from typer.testing import CliRunner

    from ecalc_cli import main

    sys.modules["ecalc_cli.commands.run"].NeqsimService = _NoJava
    with tempfile.TemporaryDirectory(prefix="verif-cli-") as tmp:
        base = Path(tmp) / "case"
        base.mkdir()
        model = base / f"{stem}.yml"
        model.write_text(data if isinstance(data, str) else dump_yaml(data))
        for name, text in files.items():
            (base / name).write_text(text)
        for name, text in (existing or {}).items():
            (base / name).parent.mkdir(exist_ok=True, parents=True)
            (base / name).write_text(text)
        before = {str(p.relative_to(base)): p.read_bytes() for p in base.rglob("*") if p.is_file()}
        full = ["--log", "ERROR", "run", str(model), *args]
        if folder is not None:
            full += ["--output-folder", str(base / folder)]
        result = CliRunner().invoke(main.app, full)
        after = {str(p.relative_to(base)): p.read_bytes() for p in base.rglob("*") if p.is_file()}
        written = {k: v.decode() for k, v in after.items() if before.get(k) != v}
        lost = [k for k in before if k not in after]
        if lost:
            raise AssertionError(f"files removed by a run: {lost}")
        exc = result.exception if not isinstance(result.exception, SystemExit) else None
        return CliRun(result.exit_code, exc, written, result.output)
