from harness.state import c07 as jobs
