//! Specific inputs that are worth revisiting: those that used to fail, and a few that are easy to
//! get wrong.

#[rustfmt::skip]
pub const CORPUS: [(&str, &str, Option<f64>); 25] = [
    // A new neighbor that only becomes one because the segment between them ends here.
    ("M4,8 L6,5 L10,9 Z M6,6 L6,0 L3,8 L9,5 Z", "", None),
    // Contours that touch their parents.
    ("M5,0 L10,5 L5,10 L0,5 Z", "M5,0 L6,5 L4,5 Z", None),
    ("M0,0 L10,0 L10,10 L0,10 Z", "M5,0 L7,5 L3,5 Z M5,5 L7,8 L3,8 Z", None),
    ("M5,0 L10,5 L5,10 L0,5 Z M5,10 L6,8 L4,8 Z", "M0,5 L3,4 L3,6 Z", None),
    // Three and more coincident segments.
    ("M0,0 L4,0 L4,4 L0,4 Z M0,0 L4,0 L4,4 L0,4 Z M0,0 L4,0 L4,4 L0,4 Z", "M4,0 L8,0 L8,4 L4,4 Z", None),
    ("M0,0 L4,4 L0,8 Z M0,0 L4,4 L0,8 Z M0,0 L4,4 L0,8 Z M0,0 L4,4 L0,8 Z", "M0,0 L4,4 L8,0 Z", None),
    // Large coordinates.
    ("M-65536,-196608 L65536,196608 L-196608,-131072 L196608,131072 Z", "", Some(0.0032768)),
    // Merging beyond the unperturbed part of a curve.
    ("M1,0 L8,0 Q4,3 10,0 Q7,0 6,2 Q9,4 1,0 Z", "", None),
    ("M3,10 L7,3 C0,5 0,6 3,10 Z M0,6 L5,1 C7,6 8,10 0,6 Z", "M7,4 C6,4 9,10 1,1 Q7,5 9,3 Q8,7 7,4 Z", Some(9e-6)),
    // Coincident curves in opposite directions.
    ("M0,0 C43.8735982935479,-89.86160121418041 0,0 -2.1144046270846095,-223.59680072190872 C-89.86160121418041,-43.8735982935479 -269.5848036425412,-131.6207948806437 -633.2600177534321,-754.3087894986527 C0,0 -89.86160121418041,-43.8735982935479 0,0 Z",
     "M0,0 C-89.86160121418041,-43.8735982935479 0,0 -633.2600177534321,-754.3087894986527 C-269.5848036425412,-131.6207948806437 -89.86160121418041,-43.8735982935479 -2.1144046270846095,-223.59680072190872 C0,0 43.8735982935479,-89.86160121418041 0,0 Z", Some(7.543087894986527e-6)),
    // Many segments through one point.
    ("M0,0 L10,10 L10,0 L0,10 Z", "M5,0 L5,10 L0,5 L10,5 Z", None),
    ("M0,0 L10,10 L0,10 L10,0 Z M2,5 L8,5 L5,9 Z", "M5,5 L9,1 L9,9 Z", None),
    // Horizontal segments, in both directions, overlapping.
    ("M0,0 L10,0 L10,2 L0,2 Z", "M3,2 L7,2 L7,0 L3,0 Z M2,2 L8,2 L5,4 Z", None),
    ("M0,0 L8,0 L8,4 L6,4 L6,2 L2,2 L2,4 L0,4 Z", "M2,2 L6,2 L6,4 L2,4 Z", None),
    ("M0,3 L10,3 L5,8 Z M2,3 L4,3 L3,0 Z M6,3 L8,3 L7,0 Z", "M1,3 L9,3 L5,5 Z", None),
    // Nothing at all, and things without an interior.
    ("", "", None),
    ("M0,0 L10,0 L0,0 Z", "M0,5 L10,5 L10,8 Z", None),
    ("M0,0 L5,10 L0,0 Z", "M0,0 L5,10 L0,10 Z", None),
    // The same square, differently subdivided.
    ("M0,0 L10,0 L10,10 L0,10 Z", "M0,0 L5,0 L10,0 L10,5 L10,10 L5,10 L0,10 L0,5 Z", None),
    // Circles.
    ("M9,5 C9,7.20914 7.20914,9 5,9 C2.79086,9 1,7.20914 1,5 C1,2.79086 2.79086,1 5,1 C7.20914,1 9,2.79086 9,5 Z", "M12,5 C12,7.20914 10.20914,9 8,9 C5.79086,9 4,7.20914 4,5 C4,2.79086 5.79086,1 8,1 C10.20914,1 12,2.79086 12,5 Z", None),
    // A figure eight, and a pentagram.
    ("M0,0 L10,10 L10,0 L0,10 Z", "", None),
    ("M5,0 L8,9 L0,3 L10,3 L2,9 Z", "", None),
    // Nested squares.
    ("M0,0 L16,0 L16,16 L0,16 Z M2,2 L2,14 L14,14 L14,2 Z M4,4 L12,4 L12,12 L4,12 Z M6,6 L6,10 L10,10 L10,6 Z", "M7,7 L9,7 L9,9 L7,9 Z", None),
    // A vertical staircase.
    ("M0,0 L1,0 L1,1 L2,1 L2,2 L3,2 L3,3 L0,3 Z", "M1,1 L3,3 L1,3 Z", None),
    // Tiny circles, with a tolerance in proportion.
    ("M9e-08,5e-08 C9e-08,7.20914e-08 7.20914e-08,9e-08 5e-08,9e-08 C2.79086e-08,9e-08 1e-08,7.20914e-08 1e-08,5e-08 C1e-08,2.79086e-08 2.79086e-08,1e-08 5e-08,1e-08 C7.20914e-08,1e-08 9e-08,2.79086e-08 9e-08,5e-08 Z", "M1.2000000000000002e-07,5e-08 C1.2000000000000002e-07,7.20914e-08 1.0209139999999999e-07,9e-08 8e-08,9e-08 C5.7908600000000004e-08,9e-08 4e-08,7.20914e-08 4e-08,5e-08 C4e-08,2.79086e-08 5.7908600000000004e-08,1e-08 8e-08,1e-08 C1.0209139999999999e-07,1e-08 1.2000000000000002e-07,2.79086e-08 1.2000000000000002e-07,5e-08 Z", Some(1e-13)),
];
