// stand-in: the sources include this header without using it
#pragma once
