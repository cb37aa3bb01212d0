// Placeholder named by rerun-if-changed of the build script in /repo; keeps Cargo's freshness check quiet.
