#include <fstream>
// Loads the standard operator package from the snapshot kept in the
// repository, in place of the generated (bazel-only) embedding.
#include <map>
#include <sstream>
#include <string>

#include "arolla/codegen/operator_package/operator_package.h"
#include "arolla/codegen/operator_package/operator_package.pb.h"
#include "arolla/proto/serialization_base.pb.h"
#include "arolla/serialization_codecs/generic/operator_codec.pb.h"
#include "absl/strings/str_split.h"
#include "arolla/serialization_codecs/generic/scalar_codec.pb.h"
#include "arolla/expr/registered_expr_operator.h"
#include "arolla/util/init_arolla.h"
#include "absl/status/status.h"

#ifndef PBT_REPO
#define PBT_REPO "/repo"
#endif


namespace {

using ::arolla::serialization_base::DecodingStepProto;
using ::arolla::serialization_codecs::OperatorV1Proto;

const OperatorV1Proto* Op(const DecodingStepProto& step) {
  return step.has_value() && step.value().HasExtension(OperatorV1Proto::extension)
             ? &step.value().GetExtension(OperatorV1Proto::extension)
             : nullptr;
}

// The snapshot predates the present form of the conditions of operator
// overloads: over L.input_tuple_qtype, with neither a signature nor
// placeholders. Rewrites the (few) forms that occur in it.
void Modernize(arolla::operator_package::OperatorProto& op) {
  auto& steps = *op.mutable_implementation()->mutable_decoding_steps();
  std::string spec;
  for (auto& step : steps) {
    const OperatorV1Proto* ov = Op(step);
    if (ov == nullptr) continue;
    if (ov->has_backend_operator()) {
      // Backend operators that have been renamed since.
      static const std::map<std::string, std::string> renamed = {
          {"math._pow", "math.pow"},          {"math.is_nan", "math._is_nan"},
          {"math.is_inf", "math._is_inf"},    {"math.is_finite", "math._is_finite"}};
      auto it = renamed.find(ov->backend_operator().name());
      if (it != renamed.end()) {
        step.mutable_value()
            ->MutableExtension(OperatorV1Proto::extension)
            ->mutable_backend_operator()
            ->set_name(it->second);
      }
      continue;
    }
    if (ov->has_generic_operator_overload() &&
        (op.registration_name() == "core.has._optional" ||
         op.registration_name() == "core.has._array")) {
      // Not overloads any more.
      int base = step.value().input_value_indices(0);
      step.set_output_value_index(base);
      steps.RemoveLast();
      return;
    }
    if (ov->has_generic_operator_overload() &&
        !ov->generic_operator_overload().has_signature_spec()) {
      const OperatorV1Proto* base =
          Op(steps[step.value().input_value_indices(0)]);
      if (base->has_restricted_lambda_operator()) {
        for (auto& s : steps) {
          if (Op(s) && Op(s)->has_lambda_operator()) base = Op(s);
        }
      }
      spec = base->has_backend_operator()
                 ? base->backend_operator().signature_spec()
                 : base->lambda_operator().signature_spec();
      step.mutable_value()
          ->MutableExtension(OperatorV1Proto::extension)
          ->mutable_generic_operator_overload()
          ->set_signature_spec(spec);
    } else if (ov->has_dispatch_operator() &&
               ov->dispatch_operator().overload_names_size() + 1 ==
                   step.value().input_expr_indices_size()) {
      spec = ov->dispatch_operator().signature_spec();
      step.mutable_value()->mutable_input_expr_indices()->RemoveLast();
    }
  }
  if (spec.empty()) return;
  std::vector<std::string> params = absl::StrSplit(spec, ", ");
  auto is_op = [&](const DecodingStepProto& s, const std::string& name) {
    if (!s.has_operator_node()) return false;
    const OperatorV1Proto* o =
        Op(steps[s.operator_node().operator_value_index()]);
    return o && o->registered_operator_name() == name;
  };
  for (auto& s : steps) {
    if (is_op(s, "core.equal")) {
      auto& in = *s.mutable_operator_node()->mutable_input_expr_indices();
      if (is_op(steps[in[0]], "qtype.get_field_count")) in[0] = in[1];
    }
  }
  for (auto& s : steps) {
    if (!is_op(s, "qtype.get_field_qtype") &&
        !is_op(s, "qtype.slice_tuple_qtype")) {
      continue;
    }
    const auto& arg = steps[s.operator_node().input_expr_indices(0)];
    if (arg.leaf_node().leaf_key() != "input_tuple_qtype") continue;
    const auto& index =
        steps[steps[s.operator_node().input_expr_indices(1)]
                  .literal_node()
                  .literal_value_index()]
            .value()
            .GetExtension(arolla::serialization_codecs::ScalarV1Proto::extension)
            .int64_value();
    s.mutable_placeholder_node()->set_placeholder_key(params[index]);
  }
  for (auto& s : steps) {
    if (s.has_leaf_node() && s.leaf_node().leaf_key() == "input_tuple_qtype") {
      s.mutable_placeholder_node()->set_placeholder_key(params[0]);
    }
  }
}

}  // namespace

AROLLA_INITIALIZER(
        .name = "arolla_operators/standard:operator_package",
        .deps = {arolla::initializer_dep::kS11n,
                 "arolla_operators/standard:bootstrap"},
        .reverse_deps = {arolla::initializer_dep::kOperators},
        .init_fn = []() -> absl::Status {
          std::ifstream f(
              PBT_REPO
              "/arolla/expr/operators/all/standard.operator_package.pb2."
              "snapshot",
              std::ios::binary);
          std::stringstream ss;
          ss << f.rdbuf();
          std::string s = ss.str();
          if (s.empty()) return absl::InternalError("no operator package");
          arolla::operator_package::OperatorPackageProto proto;
          if (!proto.ParseFromString(s)) {
            return absl::InternalError("bad operator package");
          }
          // The snapshot is older than the C++ code: a few of its operators
          // have moved there.
          auto* registry = arolla::expr::ExprOperatorRegistry::GetInstance();
          auto ops = std::move(*proto.mutable_operators());
          proto.clear_operators();
          for (auto& op : ops) {
            Modernize(op);
            if (registry->LookupOperatorOrNull(op.registration_name()) ==
                nullptr) {
              *proto.add_operators() = std::move(op);
            }
          }
          return arolla::operator_package::LoadOperatorPackageProto(proto);
        })
