//! Expanded through the macros of the tree under analysis (never run): the expansion is what the analysis compares.
async fn witness_body() {
    hydra::Process::set_flags(hydra::ProcessFlags::TRAP_EXIT);
}

#[hydra::main]
async fn main() {
    witness_body().await;
}

#[hydra::test]
async fn runner() {
    witness_body().await;
}
