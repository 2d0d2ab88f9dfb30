"""The coordinate systems the package supports (documented in reference_metric.py)."""
ALL = ["Cartesian", "SinhCartesian", "Spherical", "SinhSpherical", "SinhSphericalv2n2", "Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2",
       "SymTP", "SinhSymTP", "LWedgeHSinhSph", "UWedgeHSinhSph", "RingHoleySinhSpherical", "HoleySinhSpherical"]
EXTRA = ["SinhSphericalv2n4", "SinhCylindricalv2n4"]
