// Eigen 3.4 iterators are not C++20 contiguous iterators (newer Eigen's are), so
// give plain objects the conversions to std::span that the repository relies on.
operator std::span<Scalar>() { return {this->data(), static_cast<std::size_t>(this->size())}; }
operator std::span<const Scalar>() const { return {this->data(), static_cast<std::size_t>(this->size())}; }
