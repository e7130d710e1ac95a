// The TensorFlow ops of the tree, behind a pipe: one op run per request.
#include "server.h"
#include "tensorflow/core/framework/allocator.h"
#include "tensorflow/core/framework/device_base.h"
#include "tensorflow/core/framework/node_def.pb.h"
#include "tensorflow/core/framework/op.h"
#include "tensorflow/core/framework/op_kernel.h"
#include "tensorflow/core/framework/shape_inference.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/public/version.h"

using namespace tensorflow;  // NOLINT
using namespace verif;       // NOLINT

class CpuDevice : public DeviceBase {
 public:
  explicit CpuDevice(Env* env) : DeviceBase(env) {}
  Allocator* GetAllocator(AllocatorAttributes) override { return cpu_allocator(); }
};

template <class T>
static void Fill(Tensor* t, const std::string& data) {
  if (!data.empty()) memcpy(t->flat<T>().data(), data.data(), data.size());
}
// [dtype, shape, data]
static Tensor Make(const std::string& s) {
  Fields f = Unpack(s);
  auto dt = static_cast<DataType>(I(f[0])[0]);
  TensorShape shape;
  for (int64_t d : I(f[1])) shape.AddDim(d);
  Tensor t(dt, shape);
  if (dt == DT_STRING) {
    Fields v = Unpack(f[2]);
    for (size_t i = 0; i < v.size(); ++i) t.flat<tstring>()(i) = v[i];
  } else if (dt == DT_FLOAT) {
    Fill<float>(&t, f[2]);
  } else if (dt == DT_DOUBLE) {
    Fill<double>(&t, f[2]);
  } else if (dt == DT_UINT8) {
    Fill<uint8>(&t, f[2]);
  } else if (dt == DT_INT32) {
    Fill<int32>(&t, f[2]);
  } else if (dt == DT_INT64) {
    Fill<tensorflow::int64>(&t, f[2]);
  } else if (dt == DT_BOOL) {
    Fill<bool>(&t, f[2]);
  } else {
    throw std::runtime_error("dtype");
  }
  return t;
}
static std::string Dump(const Tensor& t) {
  std::vector<int64_t> shape;
  for (int i = 0; i < t.dims(); ++i) shape.push_back(t.dim_size(i));
  return Pack({PI1(t.dtype()), PI(shape),
               std::string(t.tensor_data().data(), t.tensor_data().size())});
}

// op, attributes [name, type, value]..., inputs
// -> error text of the construction or of the run (empty: none), inferred
//    shapes, outputs
HANDLER(op) {
  static CpuDevice* device = new CpuDevice(Env::Default());
  NodeDef def;
  def.set_name("op");
  def.set_op(f[0]);
  Fields attrs = Unpack(f[1]);
  for (size_t i = 0; i + 2 < attrs.size(); i += 3) {
    auto& a = (*def.mutable_attr())[attrs[i]];
    if (attrs[i + 1] == "s") a.set_s(attrs[i + 2]);
    if (attrs[i + 1] == "b") a.set_b(attrs[i + 2] == "1");
    if (attrs[i + 1] == "t") a.set_type(attrs[i + 2] == "d" ? DT_DOUBLE : DT_FLOAT);
  }
  std::vector<Tensor> in;
  for (const auto& x : Unpack(f[2])) {
    def.add_input("in" + std::to_string(in.size()) + ":0");
    in.push_back(Make(x));
  }
  auto status = tsl::OkStatus();
  std::unique_ptr<OpKernel> kernel = CreateOpKernel(
      DeviceType(DEVICE_CPU), device, cpu_allocator(), def, TF_GRAPH_DEF_VERSION, &status);
  if (!status.ok()) return {"construct: " + std::string(status.message())};

  const OpRegistrationData* reg = nullptr;
  status = OpRegistry::Global()->LookUp(f[0], &reg);
  if (!status.ok()) throw std::runtime_error("no such op");
  std::string shapes;
  if (reg->shape_inference_fn) {
    std::vector<shape_inference::ShapeHandle> hs;
    shape_inference::InferenceContext c(TF_GRAPH_DEF_VERSION, def, reg->op_def,
                                        std::vector<PartialTensorShape>([&] {
                                          std::vector<PartialTensorShape> v;
                                          for (auto& t : in) v.push_back(PartialTensorShape(t.shape().dim_sizes()));
                                          return v;
                                        }()),
                                        {}, {}, {});
    status = c.Run(reg->shape_inference_fn);
    if (!status.ok()) return {"shape: " + std::string(status.message())};
    Fields sh;
    for (int i = 0; i < c.num_outputs(); ++i) {
      if (!c.RankKnown(c.output(i))) {
        sh.push_back(PI1(-2));
        continue;
      }
      std::vector<int64_t> d;
      for (int k = 0; k < c.Rank(c.output(i)); ++k) {
        auto h = c.Dim(c.output(i), k);
        d.push_back(c.ValueKnown(h) ? c.Value(h) : -1);
      }
      sh.push_back(PI(d));
    }
    shapes = Pack(sh);
  }

  std::vector<TensorValue> values;
  for (auto& t : in) values.emplace_back(&t);
  OpKernelContext::Params params;
  params.device = device;
  params.op_kernel = kernel.get();
  params.inputs = values;
  std::vector<AllocatorAttributes> aa(kernel->num_outputs());
  params.output_attr_array = aa.data();
  params.resource_manager = nullptr;
  OpKernelContext ctx(&params, kernel->num_outputs());
  kernel->Compute(&ctx);
  if (!ctx.status().ok()) return {"run: " + std::string(ctx.status().message())};
  Fields out;
  for (int i = 0; i < kernel->num_outputs(); ++i) {
    Tensor* t = ctx.mutable_output(i);
    if (t == nullptr) return {"output missing"};
    out.push_back(Dump(*t));
    if (t->dtype() != kernel->output_type(i)) return {"output type"};
    delete ctx.release_output(i).tensor;
  }
  return {"", shapes, Pack(out)};
}

int main() { return Serve(); }
