fn main() {
    for f in &["schema/a.fbs", "schema/deep/dir/b.fbs", "schema/c.x.fbs"] {
        butte_build::compile_fbs(f).unwrap();
    }
}
