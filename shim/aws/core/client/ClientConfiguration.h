#pragma once
#include "aws/fake_s3.h"
