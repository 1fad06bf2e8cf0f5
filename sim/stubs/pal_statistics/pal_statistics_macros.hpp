#pragma once
#include "pal_statistics/pal_statistics_utils.hpp"
#define REGISTER_ENTITY(KEY, ...) ::pal_statistics::reg(KEY, __VA_ARGS__)
#define UNREGISTER_ENTITY(KEY, ...) ::pal_statistics::unreg(KEY, __VA_ARGS__)
#define CLEAR_ALL_REGISTRIES() ::pal_statistics::clearAll()
#define INITIALIZE_REGISTRY(node, topic, key) do { (void)(node); (void)(topic); ::pal_statistics::getRegistry(key); } while (0)
#define START_PUBLISH_THREAD(key) do { ::pal_statistics::getRegistry(key); } while (0)
#define PUBLISH_ASYNC_STATISTICS(key) ::pal_statistics::sampleRegistry(key)
