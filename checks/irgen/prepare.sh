#!/bin/bash
# Writes the messages of the .proto files of the tree under test; they are built with the rest.
cd "$(dirname "$0")" || exit 1
R=/repo/rs_bindings_from_cc
python3 tools/gen_ir_proto.py $R/ir.proto crates/ir_rust_proto/src/messages.rs &&
python3 tools/gen_ir_proto.py $R/generate_bindings/generate_bindings.proto crates/generate_bindings_rust_proto/src/messages.rs IRProto=ir_rust_proto::IRProto
