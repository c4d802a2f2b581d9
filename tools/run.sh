D=/verif/build/ir/x86_64-unknown-linux-gnu/debug/deps
/verif/engine/target/release/irsym --dir /tmp/irs --out /tmp/irs.jsonl "$@" $(ls -S $D/*.ll | grep -vE "syn-|quote|proc_macro|gimli|object|addr2line|miniz|unicode|rustc_literal")
