//! Client-side tools: storage queries, and the deployments crafted by the command line tool.
#![allow(non_snake_case)]
vp::runtime!();
mod deploy;
mod query;
