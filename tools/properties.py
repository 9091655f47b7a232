#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json of /verif from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, observe=observe))

HCT, SOLVER, CAM, VC = "src/hct/hct.rs", "src/hct/src/hct_solver.rs", "src/hct/cam16.rs", "src/hct/viewing_conditions.rs"
CU, MU, SU = "src/utils/color_utils.rs", "src/utils/math_utils.rs", "src/utils/string_utils.rs"
CON, CURVE = "src/contrast/contrast.rs", "src/dynamiccolor/src/contrast_curve.rs"
DC, DS, MDC = "src/dynamiccolor/dynamic_color.rs", "src/dynamiccolor/dynamic_scheme.rs", "src/dynamiccolor/material_dynamic_colors.rs"
PAIR, VAR = "src/dynamiccolor/src/tone_delta_pair.rs", "src/dynamiccolor/variant.rs"
TP, CP, SCH = "src/palettes/tonal_palette.rs", "src/palettes/core_palette.rs", "src/scheme/scheme.rs"
BL, DIS, TC, SCO = "src/blend/blend.rs", "src/dislike/dislike_analyzer.rs", "src/temperature/temperature_cache.rs", "src/score/score.rs"
QM, QW, QS, QC, PPL = ["src/quantize/" + x for x in ("quantizer_map.rs", "quantizer_wu.rs", "quantizer_wsmeans.rs", "quantizer_celebi.rs", "src/point_provider_lab.rs")]
SCHEMES = ["src/scheme/scheme_%s.rs" % x for x in ("content", "expressive", "fidelity", "fruit_salad", "monochrome", "neutral", "rainbow", "tonal_spot", "vibrant")]

p("C01", "Every ARGB color survives the trip through HCT unchanged",
  "For every 32-bit ARGB color, its HCT form gives back exactly that color, with a hue in [0, 360), a chroma of at least 0 and a tone in [0, 100]. Asking for the color of exactly those three coordinates returns the same red, green and blue, opaque. Alpha has no influence on the coordinates.",
  ["inputs"], "all 16,777,216 opaque colors, and colors of any alpha",
  "The round-trip test samples one color in several thousand; a solver that loses a single region of the color cube passes it.",
  [HCT, SOLVER, CAM], [("coordinates of a color", HCT), ("solver from coordinates to color", SOLVER)],
  "exhaustive round trip + property-based search", "Every opaque color is enumerated on each run; alpha is sampled.")
p("C02", "A color asked for by hue, chroma and tone is the closest one sRGB can show",
  "For every requested hue, chroma and tone the answer is an opaque color whose tone is within 0.5 of the request and each of whose channels is within 0.7 levels (below tone 3: one level) of the exact color of the requested hue and tone and the requested chroma, reduced only as far as sRGB requires, wherever sRGB has such a color. A tone of at most 0 gives black, of at least 100 white, and a chroma below 0.0001 the nearest gray of that tone. Hue counts modulo 360 degrees.",
  ["inputs"], "all real hues (including whole turns beyond [0, 360)), chromas including negative and unreachable ones, tones inside and outside of [0, 100]",
  "Tests compare a grid of hues, chromas and tones with a coarse tolerance of 4 hue degrees and 2.5 chroma; the request space is continuous and the answer switches between an iterative and a bisecting solver.",
  [SOLVER, HCT], [("iterative solver for colors inside the gamut", SOLVER), ("bisection along the gamut surface", SOLVER)],
  "property-based differential testing against an independent solver", "The reference is an independent double-precision CAM16 with bisection; channels may differ by 0.7 levels. Above tone 98.5 sRGB may have no color of the hue with at most the requested chroma; the channels are then not claimed. Requests within 0.012% of light of the surface of sRGB may count as inside; around hue 113 and tone 98.8 (by 0.3 degrees and 0.1), where the surface follows the hue, only hue and tone are claimed of requests outside of it.")
p("C03", "An HCT color always describes the color it would convert to",
  "After any sequence of hue, chroma and tone changes, an HCT value equals the one freshly made from its ARGB color, and each change gives exactly the color that a fresh request with the other two current coordinates gives. Writing back a coordinate's own value leaves the visible color alone. Two HCT values are equal, and hash alike, when and only when their ARGB colors are equal.",
  ["histories", "inputs"], "all starting colors and all sequences of setter calls with values inside and outside of the nominal ranges",
  "Tests call each setter once on a few colors; staleness only shows in sequences where chroma was cut by the gamut in an earlier step.",
  [HCT], [("setters re-solve and recompute all coordinates", HCT), ("equality and hash by ARGB", HCT)],
  "stateful property-based testing against a fresh-value model", "Histories of up to ten generated steps, shrunk to the shortest failing one, and seeded ones of up to 1,200 steps.",
  state=[dict(name="hue, chroma, tone, argb", meaning="cached coordinates of the current color", where=HCT)])
p("C04", "CAM16 coordinates are those of the CAM16 model, under any viewing conditions",
  "For every color and every valid viewing condition, lightness, brightness, chroma, colorfulness, saturation, hue and the three uniform-space coordinates equal those of the published CAM16 model. HCT hue and chroma are CAM16's under the default conditions, and HCT tone is CIE L*. Under the default conditions hue is in [0, 360).",
  ["inputs", "configurations"], "all colors, including ones between 8-bit levels, in all viewing conditions with surround in [0, 2], positive adapting luminance, any background and white points near D65",
  "Tests check a dozen primaries under the default conditions with tolerances of a thousandth.",
  [CAM, HCT], [("forward transform", CAM)], "exhaustive sweep + differential testing against an independent CAM16",
  "HCT coordinates of all opaque colors are compared; viewing conditions are sampled. Hue is not compared for grays, where it is noise.")
p("C05", "CAM16 transforms invert each other and distances follow the uniform space",
  "A color seen under viewing conditions and reproduced under the same conditions is the same color, and so is one taken through lightness-chroma-hue, XYZ or uniform-space coordinates and back. Building a color from any such coordinates, or showing it under any viewing conditions, gives the values the CAM16 model gives. The distance of two colors is 1.41 times the Euclidean uniform-space distance to the power of 0.63: zero only for equal colors, symmetric, and satisfying the triangle inequality.",
  ["inputs", "configurations"], "all colors and coordinate triples, in all valid viewing conditions",
  "Tests convert a few primaries back and forth under default conditions; the inverse path has branches for black, for gray and for each sign of the adapted response.",
  [CAM], [("inverse transform", CAM), ("JCh and UCS constructors", CAM), ("distance", CAM)],
  "round-trip and differential property-based testing", "All opaque colors under default conditions; other conditions are sampled.")
p("C06", "Viewing conditions follow their parameters, and colors translate between them",
  "Every derived quantity of viewing conditions is the one CAM16 defines for the given white point, adapting luminance, background, surround and discounting; a parameter that is left out takes its sRGB default, a non-positive luminance counts as left out, and a background below 0.1 counts as 0.1; a surround outside of [0, 2] is refused. A color translated into viewing conditions is the HCT color, under default conditions, of what the color's appearance produces there. Translation into the default conditions changes no color.",
  ["configurations", "inputs"], "all combinations of given and omitted parameters, all colors",
  "Tests only use the default conditions and two surfaces.", [VC, HCT],
  [("derivation of the conditions", VC), ("translation of a color", HCT)], "differential property-based testing",
  "Translated colors may differ from the reference by one level in a channel.")
p("C07", "ARGB components pack, unpack and linearize without loss",
  "Packing red, green and blue (taken modulo 256) gives an opaque color from which exactly those components, and alpha 255, are read back; a color is opaque when and only when its alpha is 255. Linearization is the sRGB transfer function, strictly increasing, and its inverse returns every one of the 256 levels. The inverse rounds to the nearest level, never decreases, and clamps values outside of [0, 100] to 0 and 255.",
  ["inputs"], "all channel levels, all opaque colors, all alphas, all linear values including out-of-range ones",
  "Tests pack a few colors and check a handful of linear values.", [CU],
  [("packing", CU), ("transfer function", CU)], "exhaustive sweep + differential testing", "All 2^24 opaque colors packed and unpacked on every run.")
p("C08", "XYZ, Lab and L* conversions are exact, standard and lossless",
  "For every color its XYZ, Lab and L* equal the CIE definitions under D65, ignore alpha, and convert back to exactly that color (for L*: every gray). Any XYZ, Lab or L* value, also outside of the sRGB gamut, converts to the opaque color whose channels are the nearest levels to the exact ones after clamping. Luminance and L* are increasing inverses of each other over their whole range.",
  ["inputs"], "all 2^24 opaque colors and all real XYZ, Lab and L* values around and beyond the gamut",
  "Tests round-trip a coarse subset of colors and a range of L*; the linear branch near black and clamping are barely reached.",
  [CU], [("matrices and Lab transfer", CU)], "exhaustive round trip + differential testing", "All opaque colors on every run; out-of-gamut values sampled.")
p("C09", "Angle and interpolation helpers are correct for every argument",
  "Reducing any angle gives the same direction in [0, 360), for real and for whole degrees. The difference of two hues is the shorter arc, symmetric, in [0, 180], and turning by it in the reported direction arrives at the second hue, the increasing direction being taken for opposite or equal hues. Sign, linear interpolation, clamping and the 3-by-3 matrix product are the mathematical ones.",
  ["inputs"], "all finite angles including tiny negative ones and many turns, all hue pairs, all scalars",
  "Tests rotate a list of about fifteen pairs.", [MU], [("degree arithmetic", MU)], "property-based testing against mathematical definitions", "Sampled with boundary-heavy generators.")
p("C10", "Colors print as hex and HCT text and hex text parses back",
  "Every color prints as six upper-case hex digits of red, green and blue, with a leading hash sign unless told otherwise, and parsing that text gives the same 24 bits. Parsing accepts an optional hash sign and either letter case, keeps all given digits, and gives nothing for text with any character that is no hex digit. An HCT color prints its rounded hue, chroma and tone as H, C and T.",
  ["inputs"], "all opaque colors, colors with any alpha, arbitrary strings",
  "Tests convert three colors; leading zeros, alpha and malformed text are hardly covered.", [SU, HCT],
  [("hex formatting and parsing", SU), ("HCT text", HCT)], "exhaustive sweep + generated strings against a parser model", "All opaque colors on every run.")
p("C11", "Contrast ratio of tones is the WCAG ratio, for every pair of tones",
  "The contrast ratio of two tones is (lighter luminance + 5) / (darker luminance + 5), with tones clamped to [0, 100]. It is symmetric, lies in [1, 21], and never falls when the lighter tone is raised or the darker one lowered.",
  ["inputs"], "all pairs of real tones inside and outside of [0, 100]",
  "Tests check four pairs.", [CON], [("ratio", CON)], "differential and metamorphic property-based testing", "Sampled.")
p("C12", "Lighter and darker tones meet the requested contrast or say they cannot",
  "For every tone and ratio, the lighter (darker) search returns the tone that just meets the ratio plus a 0.4 tone safety margin, and -1 when that tone would lie outside of [0, 100] or the given tone does. A returned tone always has at least the requested contrast. The unsafe forms return 100 (0) in place of -1 and otherwise the same tone.",
  ["inputs"], "all real tones including out-of-range ones, all ratios from 1 up to and beyond 21",
  "Tests check eight points.", [CON], [("lighter", CON), ("darker", CON)], "differential property-based testing",
  "Requests are concentrated around the reachability boundary; results within 1e-7 of the end may be either answer.")
p("C13", "A foreground tone meets the contrast, or is the best the preferred side allows",
  "For every background tone and ratio the foreground tone lies in [0, 100] and meets the ratio, unless neither black nor white can, in which case it is the end of the scale that comes within 0.1 of the best possible contrast. Backgrounds whose rounded tone is below 60 get the lighter tone when it meets the ratio, is at least as good as the darker, or differs from it negligibly while neither meets the ratio; others get the darker tone when it meets the ratio or is at least as good. A tone allows light foregrounds when it rounds to at most 49, prefers them when it rounds to below 60, and is lowered to 49 when it prefers without allowing.",
  ["inputs"], "all background tones and ratios from 1 to 21",
  "No direct tests beyond schemes; the preference flips in narrow bands of tones between 49 and 60.",
  [DC], [("foreground tone", DC), ("light-foreground thresholds", DC)], "differential and invariant property-based testing", "Near ties of the two candidates are checked by the invariant only.")
p("C14", "A contrast curve interpolates its four values over the contrast level",
  "A contrast curve returns its four values at levels -1, 0, 0.5 and 1, interpolates linearly between neighbouring levels and is constant beyond the ends. It never leaves the range of its values, and does not fall when they are increasing.",
  ["inputs", "configurations"], "all curves and all real levels",
  "Tests only reach it through schemes at four levels.", [CURVE], [("interpolation", CURVE)], "differential property-based testing", "Sampled.")
p("C15", "Every scheme keeps its promised contrast between foregrounds and backgrounds",
  "In every scheme, of any variant, source color, brightness and contrast level, each text, accent, outline and container role has against its background at least the contrast ratio that the design system specifies for the pair at that level (for example 4.5, 7, 11 and 21 for text at levels -1, 0, 0.5 and 1). Where more than 4.5 is specified and no tone reaches it, the role is black or white and has at least 4.45. The same holds, up to rounding to 8 bits, for the colors the scheme returns.",
  ["inputs", "configurations"], "all nine variants, all source colors, light and dark, all contrast levels in and beyond [-1, 1], 58 role pairs",
  "The correctness test tries 6 source colors and 4 levels; contrast depends on solver results for every hue and on the level continuously.",
  [MDC, DC, CON, CURVE] + SCHEMES, [("role table with contrast curves", MDC), ("tone resolution", DC)],
  "property-based search with a contrast oracle", "Rendered colors get 2.5% slack for 8-bit rounding. Container ratios below 3 are claimed only against the surface nearest in tone.")
p("C16", "Paired roles stay at least ten tones apart and backgrounds avoid 50 to 59",
  "In every scheme each accent is at least 10 tones lighter (dark scheme) or darker (light scheme) than its container, and each fixed color at least 10 tones lighter than its dim form. No role that serves as a background has a tone in [50, 60). Every role's color has a tone within 0.5 of the role's resolved tone.",
  ["inputs", "configurations"], "all variants, source colors, light and dark, all contrast levels",
  "The correctness test tries 6 source colors and 4 levels with a slack of 1.",
  [DC, MDC, PAIR], [("tone delta pairs", DC), ("role table", MDC)], "property-based search with an invariant oracle", "Rendered tones get 0.5 slack.")
p("C17", "Every role of every scheme is the one the Material role table specifies",
  "For every scheme each of the 54 roles has the tone that the published Material role table and its adjustment rules give for the scheme's variant, brightness, contrast level, source color and palettes, and its color is exactly that tone of the role's palette. Asking the role for an ARGB or HCT color and asking the scheme give the same color; the highest surface is the bright surface in the dark and the dim one in the light. A scheme made without a contrast level has level 0.",
  ["inputs", "configurations"], "all variants, source colors, light and dark, all levels, and schemes over arbitrary palettes",
  "Tests pin about thirty tones at level 0 and a few at other levels, mostly for one or two source colors.",
  [MDC, DC, DS, PAIR, CURVE], [("role table", MDC), ("scheme getters", DS), ("tone resolution", DC)],
  "differential property-based testing against an independent role table", "The table is written out in the harness from the published design tokens; comparisons within 1e-9 of a tie may go either way.")
p("C18", "A role's color depends only on the scheme it is asked for",
  "A dynamic color object that has served any sequence of schemes gives for each scheme the same color and tone as a new object. Schemes are equal exactly when source color, variant, brightness, contrast level and all palettes are, and equal schemes and copies hash alike. Reading colors never changes a scheme.",
  ["histories", "inputs"], "all sequences of queries over schemes that differ in single components, in any order and beyond the size of the internal cache",
  "Tests use a new color object for nearly every query, so that stale or colliding cache entries never show.",
  [DC, DS, VAR, TP], [("color cache", DC), ("scheme equality and hash", DS)], "stateful property-based testing against fresh objects",
  "Histories of up to 24 generated queries over up to 9 schemes, and seeded ones of up to 1,600 queries over up to 800 schemes.", state=[dict(name="hct cache", meaning="colors by scheme, at most a few entries", where=DC)])
p("C19", "User-defined dynamic colors resolve by the documented rules",
  "A dynamic color without background has its own tone; with one, it keeps its tone if the contrast curve is met and takes the foreground tone otherwise, always at negative levels; a background in [50, 60) moves to 49 if that meets the contrast, else to 60. With two backgrounds it keeps a tone that meets both and otherwise takes the lighter tone if either background prefers light foregrounds or only lighter is possible, else the darker. In a pair the farther role is pushed away to keep the difference, then the nearer one, and tones in [50, 60) leave that range together or alone as the pair says.",
  ["inputs", "configurations"], "all combinations of tones, curves, nested and double backgrounds, pair polarities, deltas, levels and light or dark",
  "Tests only use the built-in roles, which reach few of the combinations of the resolution rules.",
  [DC, PAIR], [("tone resolution", DC)], "differential property-based testing against a reference resolver", "Backgrounds nested up to two deep; ties within 1e-9 may go either way.")
p("C20", "Every scheme variant derives its palettes from the source color as specified",
  "For every source color each of the nine variants has palettes of exactly the specified hue and chroma (rotated, fixed or derived from the source, from its analogues or its complement), an error palette of hue 25 and chroma 84, and keeps the given source, variant, brightness and level. Rotating a hue by a table of breakpoints uses the entry of the interval that contains the hue, a breakpoint belonging to the interval it starts, leaves hues outside of the table alone, and gives a hue in [0, 360); tables of unequal length are refused.",
  ["inputs", "configurations"], "all source colors, variants, and rotation tables, including hues exactly on a breakpoint",
  "Tests check role colors of one or two sources per variant and rotation for four simple tables.",
  SCHEMES + [DS, TP], [("palettes of each variant", SCHEMES[7]), ("hue rotation", DS)], "differential property-based testing",
  "Temperature-based hues are taken from the crate's own analogues and complement, which C27 decides.")
p("C21", "Core palettes and classic schemes follow their tables and survive lists",
  "For every source color a core palette (normal or content) has the specified hue and chroma for each of its six palettes; its list is the 13 standard tones of the five main palettes in order, and any list of 65 colors, and no other, makes a core palette that returns that list. Equality and hash follow the palettes, and text names each of them. Classic light and dark schemes, normal, content or over a given core palette, take each of their 29 roles from the specified tone of the specified palette.",
  ["inputs"], "all source colors, all lists of 65 colors", "Tests check blue and two content colors.",
  [CP, TP, SCH], [("core palette", CP), ("classic scheme tables", SCH)], "differential and round-trip property-based testing",
  "The dark on-error-container role may be tone 80 or 90.")
p("C22", "A tonal palette always answers a tone the same way, however it was read before",
  "For every palette (from hue and chroma, from a color, or from a list) and every sequence of reads, each tone, whole or fractional, gives the color of the palette's hue and chroma at that tone, except that a list palette returns its 13 given colors for the 13 standard tones; hue and chroma of a list palette are those of its most colorful color of tone at most 98, and lists of another length are refused. Lists, text, copies, equality and hash agree with that and do not depend on earlier reads. Palettes from hue and chroma are equal exactly when both agree, and a palette made from a list equals any palette with the same list.",
  ["histories", "inputs"], "all palettes, all sequences of reads, all tones including fractional and out-of-range ones",
  "Tests read each palette a few times at whole tones; caching errors need a particular order of reads.",
  [TP], [("tone cache", TP), ("equality and hash", TP)], "stateful model-based property testing",
  "Histories of up to 20 generated reads, and seeded ones of up to 1,200. One known finding: a palette from hue and chroma equals one from its own list but hashes differently.", state=[dict(name="tone cache", meaning="colors already computed or given", where=TP)])
p("C23", "A palette's key color is the tone nearest 50 that gets its chroma",
  "The key color of a palette of given hue and chroma has, among whole tones from 1 to 99, a chroma that rounds to the wanted one as near to tone 50 as possible, or, when no tone gets there, the chroma nearest to it. Ties go to the tone nearer 50, then to the lighter one. A palette made from a color has that color as key color.",
  ["inputs"], "all hues and chromas, including unreachable chromas and chromas at a half", "Tests check three palettes.",
  [TP], [("key color search", TP)], "differential and optimality property-based testing", "Sampled.")
p("C24", "Blending moves hue and uniform-space position as documented",
  "Harmonizing turns the design color's hue toward the source's, along the shorter arc, by half their difference but at most 15 degrees, and keeps chroma and tone. Uniform-space blending gives the color that lies the given fraction of the way between the two colors in CAM16-UCS, reaching each color exactly at 0 and 1. Hue blending takes the hue of that blend and the chroma and tone of the first color.",
  ["inputs"], "all pairs of colors, all amounts in [0, 1], hues on both sides of the 0/360 seam and opposite hues", "Tests harmonize a dozen primary pairs.",
  [BL, MU, CAM], [("harmonize", BL), ("blends", BL)], "differential property-based testing", "Blended channels within 0.501 of the exact value.")
p("C25", "Exactly the dark yellow-greens are disliked, and fixing lifts only those",
  "A color is disliked exactly when its rounded hue is from 90 to 111, its rounded chroma above 16 and its rounded tone below 65. Fixing a disliked color gives the color of the same hue and chroma at tone 70; any other color comes back unchanged. A fixed color is never disliked.",
  ["inputs"], "all 2^24 opaque colors, and colors of any alpha", "Tests check ten skin tones, five bile colors and one tone.",
  [DIS], [("region test", DIS), ("fix", DIS)], "exhaustive sweep against a reference predicate", "Every opaque color on every run.")
p("C26", "Color temperature and its extremes are right for every color",
  "The raw temperature of every color is Ou, Woodcock and Wright's factor of its Lab chroma and hue. For every input color the wheel holds the color of each whole hue with the input's chroma and tone, the list by temperature is that whole wheel and the input, in ascending order, and the coldest and warmest are its ends. Relative temperatures run linearly from 0 at the coldest to 1 at the warmest, are 0.5 when all colors coincide, and no answer depends on what was asked before.",
  ["inputs", "histories"], "all opaque colors for raw temperature; all input colors and query orders for the rest", "Tests check five colors.",
  [TC], [("raw temperature", TC), ("lazily built wheel and extremes", TC)], "exhaustive sweep + differential property-based testing",
  "Relative temperature is asked for colors of the wheel and the input only.", state=[dict(name="lazy caches", meaning="wheel, order and temperatures, filled on first use", where=TC)])
p("C27", "Complements and analogous colors divide the wheel by temperature",
  "For every input color the complement is the wheel color across the warm-cold axis from the input whose relative temperature comes nearest to one minus the input's. Analogous colors are exactly as many as asked for, all from the wheel, with the input color itself in the middle (or just before it). The colors before and after it are the neighbouring divisions when the wheel is divided, starting at the input, into the given number of steps of equal temperature change, wrapping around.",
  ["inputs", "configurations"], "all input colors, including grays and hues at the seam, all counts and divisions of at least 1", "Tests check five colors with default counts.",
  [TC], [("complement", TC), ("analogous", TC)], "differential property-based testing against a reference division", "Divisions within 1e-9 of a tie are checked by the invariants only.")
p("C28", "Ranking picks suitable, distinct hues by score, the same way every time",
  "The ranking returns between one and the desired number of the given colors, best score first, no two with hues closer than 15 degrees, and as far apart (up to 90 degrees) as still yields the desired number. Unless filtering is off, colors of chroma below 5 or whose neighbouring hues (within 15 degrees) hold at most 1% of the population are left out; when nothing is left, the answer is the fallback color. The score is 70 times the share of neighbouring hues plus 0.1 (below) or 0.3 (above) times the difference of chroma from 48, and the result depends on nothing else: not on map order, repetition or doubling of all populations.",
  ["inputs", "configurations"], "all maps of colors to populations (including zero and very large ones), all desired counts of at least 1, fallbacks and filters", "Tests rank about a dozen small maps.",
  [SCO], [("scoring", SCO), ("choice by hue distance", SCO)], "differential and metamorphic property-based testing", "Near ties are checked by the invariants only.")
p("C29", "The map quantizer counts exactly the opaque pixels",
  "For every image the map quantizer returns each opaque color with the number of its pixels and nothing else. The answer depends neither on the order of the pixels nor on the number of colors wanted.",
  ["inputs"], "all images, including empty ones and ones with translucent pixels", "Only used indirectly by tests.", [QM], [("counting", QM)], "model-based property testing", "Images of up to a few thousand pixels.")
p("C30", "The Wu quantizer returns as many colors as it can, each the mean of its box",
  "For every image the Wu quantizer returns as many opaque colors as were wanted, or as the opaque pixels occupy cells of the 5-bit color cube if that is less. The colors are the rounded means of the boxes that result from cutting, again and again, the box of largest squared error where the error of the two halves is least. Neither millions of pixels nor earlier use of the same quantizer object change that.",
  ["inputs", "histories"], "all images (also translucent, empty, large), all wanted counts of at least 1, repeated use", "Tests quantize seven images of at most five pixels.",
  [QW], [("histogram and moments", QW), ("cutting of boxes", QW), ("mean of a box", QW)], "differential property-based testing against a reference splitter", "Where two cuts are within 1e-12 (relative) of a tie, only the number of colors and their opacity are checked.")
p("C31", "K-means clusters account for every pixel and are the means of their pixels",
  "For every image the clusters are at most as many as wanted and as there are colors, their populations sum to the number of pixels, and the map from pixels to clusters, given only when asked for, covers each color and adds up to the populations. Each cluster color is, within one level, the Lab mean of its pixels. Each iteration moves pixels to the nearest center in Lab, with two clusters always; with more, the code may leave a pixel with a center that is near compared to the distances between centers. The answer is the same every time, more iterations never fit worse, the image repeated gives the same clusters with doubled populations, and omitted arguments mean no starting clusters, Lab and five iterations.",
  ["inputs", "configurations"], "all images, wanted counts and iterations of at least 1, any starting clusters", "Tests quantize seven images of at most five pixels.",
  [QS, PPL], [("assignment and update", QS), ("Lab points", PPL)], "invariant, metamorphic and reference-model property-based testing", "More iterations are allowed the rounding of merged clusters. Assignments are compared with a reference k-means where no centers are about as near and the shortcut cannot apply.")
p("C32", "The Celebi quantizer is Wu refined by k-means, the same way every time",
  "For every image the Celebi quantizer gives the result of k-means in Lab started from Wu's colors in ascending order, and so the same colors, populations and pixel map every time. Populations sum to the number of pixels and each color is the mean of its pixels. The image repeated gives the same colors with doubled populations.",
  ["inputs", "histories"], "all opaque images, all wanted counts of at least 1, repeated runs", "Tests quantize seven images once each.",
  [QC, QW, QS], [("composition", QC)], "differential, repetition and metamorphic property-based testing", "Images of up to 60 runs of pixels, and seeded ones of up to 600,000 pixels.")
p("C33", "From any image to a theme: complete, repeatable, legible",
  "For every opaque image, quantizing, ranking and building a scheme of any variant succeeds and gives the same theme every time. The seed colors are colors of the quantized image, or the single fallback. Every role of the theme is an opaque color, and text on surface keeps the contrast of the theme's contrast level.",
  ["inputs", "configurations"], "all images, variants, light and dark, and contrast levels", "No test covers the whole pipeline.",
  [QC, SCO, DS, MDC], [("pipeline of quantizer, ranking and scheme", QC)], "end-to-end property-based testing", "Rendered contrast gets 3% slack.")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            a = dict(files=x["files"], mechanism=[dict(name=n, where=w) for n, w in x["mech"]])
            if x["state"]: a["state"] = x["state"]
            f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
                quantifier=dict(over=x["over"], text=x["qtext"]), why_tests_cant=x["why"], anchors=a)) + "\n")
    man = dict(version=1, setup_cmd="cd harness && cargo build --release --offline --locked",
        checks=[dict(property=x["id"], quick_cmd="./run.sh %s quick" % x["id"], thorough_cmd="./run.sh %s thorough" % x["id"],
            evidence_file="evidence/%s.json" % x["id"], technique=x["technique"], level="exploration", level_note=x["note"]) for x in P],
        not_applicable=[])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
if __name__ == "__main__":
    main()
