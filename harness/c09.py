from harness.state import c09 as jobs
