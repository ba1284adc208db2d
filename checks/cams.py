"""Facts about the camera factories, confirmed by reading geometry/src/camera.cc (checked by G01)."""

# projection type -> (factory, ordered slots); a slot is a camera attribute or a tuple of scalars
PP = ("principal_point[0]", "principal_point[1]")
FACTORY = {
    "perspective": ("create_perspective", ["focal", "k1", "k2"]),
    "brown": ("create_brown", ["focal", "aspect_ratio", PP, ("k1", "k2", "k3", "p1", "p2")]),
    "fisheye": ("create_fisheye", ["focal", "k1", "k2"]),
    "fisheye_opencv": ("create_fisheye_opencv", ["focal", "aspect_ratio", PP, ("k1", "k2", "k3", "k4")]),
    "fisheye62": ("create_fisheye62", ["focal", "aspect_ratio", PP, ("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2")]),
    "fisheye624": ("create_fisheye624", ["focal", "aspect_ratio", PP,
                   ("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3")]),
    "radial": ("create_radial", ["focal", "aspect_ratio", PP, ("k1", "k2")]),
    "simple_radial": ("create_simple_radial", ["focal", "aspect_ratio", PP, "k1"]),
    "dual": ("create_dual", ["transition", "focal", "k1", "k2"]),
    "spherical": ("create_spherical", []),
}
