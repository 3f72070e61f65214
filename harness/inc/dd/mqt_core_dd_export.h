#pragma once
#define MQT_CORE_DD_EXPORT
#define MQT_CORE_DD_NO_EXPORT
#define MQT_CORE_DD_DEPRECATED
