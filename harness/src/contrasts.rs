pub const CONTRASTS: &[(&str, &str, [f64; 4])] = &[
    ("on_surface", "surface", [4.5, 7.0, 11.0, 21.0]),
    ("on_surface", "surface_bright", [4.5, 7.0, 11.0, 21.0]),
    ("primary", "surface_dim", [3.0, 4.5, 7.0, 7.0]),
    ("primary", "surface_bright", [3.0, 4.5, 7.0, 7.0]),
    ("secondary", "surface_dim", [3.0, 4.5, 7.0, 7.0]),
    ("secondary", "surface_bright", [3.0, 4.5, 7.0, 7.0]),
    ("tertiary", "surface_dim", [3.0, 4.5, 7.0, 7.0]),
    ("tertiary", "surface_bright", [3.0, 4.5, 7.0, 7.0]),
    ("error", "surface_dim", [3.0, 4.5, 7.0, 7.0]),
    ("error", "surface_bright", [3.0, 4.5, 7.0, 7.0]),
    ("on_surface_variant", "surface_dim", [3.0, 4.5, 7.0, 11.0]),
    ("on_surface_variant", "surface_bright", [3.0, 4.5, 7.0, 11.0]),
    ("outline", "surface_dim", [1.5, 3.0, 4.5, 7.0]),
    ("outline", "surface_bright", [1.5, 3.0, 4.5, 7.0]),
    ("primary_container", "surface_dim", [0.0, 0.0, 3.0, 4.5]),
    ("primary_container", "surface_bright", [0.0, 0.0, 3.0, 4.5]),
    ("primary_fixed", "surface_dim", [0.0, 0.0, 3.0, 4.5]),
    ("primary_fixed", "surface_bright", [0.0, 0.0, 3.0, 4.5]),
    ("primary_fixed_dim", "surface_dim", [0.0, 0.0, 3.0, 4.5]),
    ("primary_fixed_dim", "surface_bright", [0.0, 0.0, 3.0, 4.5]),
    ("secondary_container", "surface_dim", [0.0, 0.0, 3.0, 4.5]),
    ("secondary_container", "surface_bright", [0.0, 0.0, 3.0, 4.5]),
    ("secondary_fixed", "surface_dim", [0.0, 0.0, 3.0, 4.5]),
    ("secondary_container", "surface_bright", [0.0, 0.0, 3.0, 4.5]),
    ("secondary_fixed_dim", "surface_dim", [0.0, 0.0, 3.0, 4.5]),
    ("secondary_fixed_dim", "surface_bright", [0.0, 0.0, 3.0, 4.5]),
    ("tertiary_container", "surface_dim", [0.0, 0.0, 3.0, 4.5]),
    ("tertiary_container", "surface_bright", [0.0, 0.0, 3.0, 4.5]),
    ("tertiary_fixed", "surface_dim", [0.0, 0.0, 3.0, 4.5]),
    ("tertiary_fixed", "surface_bright", [0.0, 0.0, 3.0, 4.5]),
    ("tertiary_fixed_dim", "surface_dim", [0.0, 0.0, 3.0, 4.5]),
    ("tertiary_fixed_dim", "surface_bright", [0.0, 0.0, 3.0, 4.5]),
    ("error_container", "surface_dim", [0.0, 0.0, 3.0, 4.5]),
    ("error_container", "surface_bright", [0.0, 0.0, 3.0, 4.5]),
    ("outline_variant", "surface_dim", [0.0, 0.0, 3.0, 4.5]),
    ("outline_variant", "surface_bright", [0.0, 0.0, 3.0, 4.5]),
    ("inverse_on_surface", "inverse_surface", [4.5, 7.0, 11.0, 21.0]),
    ("inverse_primary", "inverse_surface", [3.0, 4.5, 7.0, 7.0]),
    ("on_primary", "primary", [4.5, 7.0, 11.0, 21.0]),
    ("on_secondary", "secondary", [4.5, 7.0, 11.0, 21.0]),
    ("on_tertiary", "tertiary", [4.5, 7.0, 11.0, 21.0]),
    ("on_error", "error", [4.5, 7.0, 11.0, 21.0]),
    ("on_primary_container", "primary_container", [4.5, 7.0, 11.0, 21.0]),
    ("on_secondary_container", "secondary_container", [4.5, 7.0, 11.0, 21.0]),
    ("on_tertiary_container", "tertiary_container", [4.5, 7.0, 11.0, 21.0]),
    ("on_error_container", "error_container", [4.5, 7.0, 11.0, 21.0]),
    ("on_primary_fixed", "primary_fixed", [4.5, 7.0, 11.0, 21.0]),
    ("on_primary_fixed", "primary_fixed_dim", [4.5, 7.0, 11.0, 21.0]),
    ("on_secondary_fixed", "secondary_fixed", [4.5, 7.0, 11.0, 21.0]),
    ("on_secondary_fixed", "secondary_fixed_dim", [4.5, 7.0, 11.0, 21.0]),
    ("on_tertiary_fixed", "tertiary_fixed", [4.5, 7.0, 11.0, 21.0]),
    ("on_tertiary_fixed", "tertiary_fixed_dim", [4.5, 7.0, 11.0, 21.0]),
    ("on_primary_fixed_variant", "primary_fixed", [3.0, 4.5, 7.0, 11.0]),
    ("on_primary_fixed_variant", "primary_fixed_dim", [3.0, 4.5, 7.0, 11.0]),
    ("on_secondary_fixed_variant", "secondary_fixed", [3.0, 4.5, 7.0, 11.0]),
    ("on_secondary_fixed_variant", "secondary_fixed_dim", [3.0, 4.5, 7.0, 11.0]),
    ("on_tertiary_fixed_variant", "tertiary_fixed", [3.0, 4.5, 7.0, 11.0]),
    ("on_tertiary_fixed_variant", "tertiary_fixed_dim", [3.0, 4.5, 7.0, 11.0]),
];
