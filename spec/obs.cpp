// observable, instantiated for an arithmetic values and a class
#include <teiacare/sdk/observable.hpp>
#include <string>

template class tc::sdk::observable<int>;
template class tc::sdk::observable<double>;
template class tc::sdk::observable<std::string>;
