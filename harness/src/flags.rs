//! Golden SISO-REF-010 bit assignments of the flag records.
pub struct FlagTable {
    pub name: &'static str,
    pub width: usize,
    pub bits: &'static [(&'static str, u32)],
}
pub const FLAGS: [FlagTable; 3] = [
    FlagTable {
        name: "LandPlatformAppearance",
        width: 4,
        bits: &[
            ("PaintScheme", 0),
            ("MobilityKilled", 1),
            ("FirePowerKilled", 2),
            ("Damage", 3),
            ("IsSmokeEmanating", 5),
            ("IsEngineEmittingSmoke", 6),
            ("TrailingDustCloud", 7),
            ("PrimaryHatch", 9),
            ("HeadLightsOn", 12),
            ("TailLightsOn", 13),
            ("BrakeLightsOn", 14),
            ("IsFlaming", 15),
            ("LauncherOperational", 16),
            ("CamouflageType", 17),
            ("ConcealedPosition", 19),
            ("IsFrozen", 21),
            ("PowerPlantOn", 22),
            ("State", 23),
            ("TentExtended", 24),
            ("RampExtended", 25),
            ("BlackoutLightsOn", 26),
            ("BlackoutBrakeLightsOn", 27),
            ("SpotSearchLight1On", 28),
            ("InteriorLightsOn", 29),
            ("OccupantsSurrendered", 30),
            ("MaskedCloaked", 31),
        ],
    },
    FlagTable {
        name: "FrozenBehavior",
        width: 1,
        bits: &[("RunSimulationClock", 0), ("TransmitUpdates", 1), ("ProcessUpdates", 2)],
    },
    FlagTable {
        name: "ObjectStateAppearanceGeneral",
        width: 2,
        bits: &[
            ("PercentComplete", 0),
            ("Damage", 8),
            ("Predistributed", 10),
            ("State", 11),
            ("IsSmoking", 12),
            ("IsFlaming", 13),
            ("IEDPresent", 14),
        ],
    },
];
pub fn flag_table(n: &str) -> &'static FlagTable {
    FLAGS.iter().find(|f| f.name == n).unwrap_or_else(|| panic!("engine: no flags {n}"))
}
