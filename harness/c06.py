from harness.state import c06 as jobs
