"""C17: stat.test.mahalanobis, against the quadratic form of the inverse covariance."""
from harness.models import mahalanobis


def jobs(tier):
    return [mahalanobis("stat.test.mahalanobis", 38030, form, tier == "thorough") for form in ("array", "map")]
