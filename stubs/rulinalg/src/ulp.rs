#[derive(Debug, Clone, Copy, PartialEq)]
pub enum UlpComparisonResult { ExactMatch, Difference(u64), IncompatibleSigns, Nan }
