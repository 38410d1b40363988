// Interface stand-in: TensorFlow is not installed here.
#ifndef VERIF_STUB_TENSOR_H_
#define VERIF_STUB_TENSOR_H_
namespace tensorflow {
class Tensor {};
}  // namespace tensorflow
#endif
