"""Checks that the tools the framework needs are there (nothing is built)."""
import subprocess
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common
import tlc

subprocess.run([common.PYTHON, "-c", "import devpi_server, devpi_web, devpi, devpi_postgresql, webtest"],
               check=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), cwd="/")
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
assert all(os.path.exists(j) for j in tlc.JAR.split(":"))
print("ok")
