"""Value-graph equivalence of the Bouguer correction, the Airy isostatic Moho, the conversions between
magnetic vectors and angles and the total-field anomaly with their documented formulas, and of the name
and attributes of the Moho grid."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN
APIS = ("bouguer_correction", "isostatic_moho_airy", "magnetic_angles_to_vec", "magnetic_vec_to_angles",
        "total_field_anomaly")


def check(ctx):
    spec_check(ctx, cases(ctx, "simple", apis=APIS), ["value", "errors", "marks"])
