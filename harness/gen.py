import re
crates="""sail-cache sail-catalog sail-catalog-glue sail-catalog-hms sail-catalog-iceberg sail-catalog-memory sail-catalog-onelake sail-catalog-system sail-catalog-unity sail-celeborn sail-common sail-common-datafusion sail-data-source sail-delta-lake sail-execution sail-function sail-iceberg sail-logical-optimizer sail-logical-plan sail-object-store sail-physical-optimizer sail-physical-plan sail-plan sail-pyarrow sail-python-udf sail-session sail-spark-connect sail-sql-analyzer sail-sql-parser sail-telemetry""".split()
feats=[f"c{i:02d}" for i in range(1,61)]
s='''[package]
name = "symharness"
version = "0.7.0"
edition = "2024"
[workspace]
[features]
warm = []
'''+''.join(f'{f} = []\n' for f in feats)+'''[dependencies]
arrow = { version = "58.3.0", features = ["chrono-tz"] }
chrono = { version = "0.4.44", features = ["serde"] }
datafusion = { version = "54.1.0", default-features = false }
datafusion-common = { version = "54.1.0", features = ["object_store"] }
datafusion-expr = { version = "54.1.0", default-features = false }
datafusion-physical-expr = { version = "54.1.0" }
object_store = { version = "0.13.2" }
bytes = "1.11.1"
futures = "0.3.32"
async-trait = "0.1.89"
serde_json = "1"
ordered-float = "5"
url = "2"
uuid = "1"
tokio = "1"
opentelemetry = "0.32.0"
opentelemetry_sdk = { version = "0.32.1", features = ["testing"] }
indexmap = "2"
'''+''.join(f'{c} = {{ path = "/repo/crates/{c}" }}\n' for c in crates)+'''[profile.dev]
debug = false
incremental = false
debug-assertions = false
overflow-checks = true
panic = "abort"
'''
open('Cargo.toml','w').write(s)
l='''#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
pub mod rt;
#[cfg(not(feature = "warm"))]
pub mod udf;
#[cfg(any(feature = "c06", feature = "c08", feature = "c10", feature = "c11"))]
pub mod store;
'''+''.join(f'#[cfg(feature = "{f}")]\nmod {f};\n' for f in feats)
open('src/lib.rs','w').write(l)
