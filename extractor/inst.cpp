// Instantiates the public function templates so that their bodies can be analysed.
#include <cstdint>
#include <sstream>
#include <string>
#include <vector>
#include "mdf/ichannel.h"
#include "mdf/ichannelconversion.h"
#include "mdf/ichannelobserver.h"

namespace {
template <typename T>
void Use(mdf::IChannel& channel, mdf::IChannelObserver& observer) {
  T value{};
  std::vector<T> list;
  std::vector<uint8_t> record;
  channel.GetChannelValue(record, value, 0);
  channel.SetChannelValue(value, true, 0);
  channel.SetChannelValues(list);
  observer.GetChannelValue(0, value, 0);
  observer.GetEngValue(0, value, 0);
  observer.GetChannelSamples(list);
  observer.GetChannelValues(0, list);
  observer.GetEngSamples(list);
  observer.GetEngValues(0, list);
}

void UseText(mdf::IChannelObserver& observer, const mdf::IChannelConversion& conversion) {
  std::string value;
  double number = 0;
  observer.GetChannelValue(0, value, 0);
  observer.GetEngValue(0, value, 0);
  conversion.Convert(std::string(), value);
  conversion.Convert(std::string(), number);
}
}  // namespace

void UseTemplates(mdf::IChannel& channel, mdf::IChannelObserver& observer, const mdf::IChannelConversion& conversion) {
  Use<uint64_t>(channel, observer);
  Use<int64_t>(channel, observer);
  Use<uint8_t>(channel, observer);
  Use<int32_t>(channel, observer);
  Use<double>(channel, observer);
  Use<float>(channel, observer);
  UseText(observer, conversion);
}
