//! Every Material role of the crate: name, constructor, scheme getter.
use material_color_utilities_rs::dynamiccolor::{
    dynamic_color::DynamicColor, dynamic_scheme::DynamicScheme,
    material_dynamic_colors::MaterialDynamicColors as M,
};

pub struct Role {
    pub name: &'static str,
    pub make: fn() -> DynamicColor,
    pub getter: fn(&DynamicScheme) -> i64,
}

macro_rules! roles {
    ($($n:ident $g:ident),* $(,)?) => {
        pub const ROLES: &[Role] = &[$(Role { name: stringify!($n), make: M::$n, getter: DynamicScheme::$g }),*];
    };
}
roles!(
    primary_palette_key_color get_primary_palette_key_color,
    secondary_palette_key_color get_secondary_palette_key_color,
    tertiary_palette_key_color get_tertiary_palette_key_color,
    neutral_palette_key_color get_neutral_palette_key_color,
    neutral_variant_palette_key_color get_neutral_variant_palette_key_color,
    background get_background,
    on_background get_on_background,
    surface get_surface,
    surface_dim get_surface_dim,
    surface_bright get_surface_bright,
    surface_container_lowest get_surface_container_lowest,
    surface_container_low get_surface_container_low,
    surface_container get_surface_container,
    surface_container_high get_surface_container_high,
    surface_container_highest get_surface_container_highest,
    on_surface get_on_surface,
    surface_variant get_surface_variant,
    on_surface_variant get_on_surface_variant,
    inverse_surface get_inverse_surface,
    inverse_on_surface get_inverse_on_surface,
    outline get_outline,
    outline_variant get_outline_variant,
    shadow get_shadow,
    scrim get_scrim,
    surface_tint get_surface_tint,
    primary get_primary,
    on_primary get_on_primary,
    primary_container get_primary_container,
    on_primary_container get_on_primary_container,
    inverse_primary get_inverse_primary,
    secondary get_secondary,
    on_secondary get_on_secondary,
    secondary_container get_secondary_container,
    on_secondary_container get_on_secondary_container,
    tertiary get_tertiary,
    on_tertiary get_on_tertiary,
    tertiary_container get_tertiary_container,
    on_tertiary_container get_on_tertiary_container,
    error get_error,
    on_error get_on_error,
    error_container get_error_container,
    on_error_container get_on_error_container,
    primary_fixed get_primary_fixed,
    primary_fixed_dim get_primary_fixed_dim,
    on_primary_fixed get_on_primary_fixed,
    on_primary_fixed_variant get_on_primary_fixed_variant,
    secondary_fixed get_secondary_fixed,
    secondary_fixed_dim get_secondary_fixed_dim,
    on_secondary_fixed get_on_secondary_fixed,
    on_secondary_fixed_variant get_on_secondary_fixed_variant,
    tertiary_fixed get_tertiary_fixed,
    tertiary_fixed_dim get_tertiary_fixed_dim,
    on_tertiary_fixed get_on_tertiary_fixed,
    on_tertiary_fixed_variant get_on_tertiary_fixed_variant,
);

pub fn role(name: &str) -> &'static Role {
    ROLES.iter().find(|r| r.name == name).unwrap()
}
