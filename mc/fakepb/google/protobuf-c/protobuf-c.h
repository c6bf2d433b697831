/* what libmy/ubuf-pb.h needs of protobuf-c, which is not installed */
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef struct ProtobufCBuffer ProtobufCBuffer;
struct ProtobufCBuffer { void (*append)(ProtobufCBuffer *buffer, size_t len, const uint8_t *data); };
