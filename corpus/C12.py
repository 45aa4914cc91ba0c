M = 'request_pkg/multipart.py'
B = 'request_pkg/body_mixin.py'
H = 'request_pkg/helpers.py'
R = 'request_pkg/request.py'
OM = 'ombott.py'
X = "            except (ValueError, KeyError, StopIteration) as err:\n"
J = "            except (ValueError, RecursionError):\n"
BUGS = {
    'no_value': [(M, X, X.replace('ValueError, ', ''))],
    'no_key': [(M, X, X.replace('KeyError, ', ''))],
    'no_stop': [(M, X, X.replace(', StopIteration', ''))],
    'no_unicode': [(M, X, "            except UnicodeDecodeError:\n                raise\n" + X)],
    'json_rec': [(B, J, "            except ValueError:\n")],
    'json_dec': [(B, J, "            except (json_mod.JSONDecodeError, RecursionError):\n")],
    'json_list': [(B, "                if isinstance(data, dict):\n                    post.update(data)\n                elif data is not None:\n                    self._raise(BodyParsingError('JSON object was expected'), RequestError)\n", "                if data is not None:\n                    post.update(data)\n")],
    'json_falsy': [(B, "                elif data is not None:\n                    self._raise(BodyParsingError('JSON object was expected'), RequestError)\n", "                elif data:\n                    post.update(data)\n")],
    'json_raise': [(B, "                self._raise(BodyParsingError('Malformed JSON body'), RequestError)\n", "                raise BodyParsingError('Malformed JSON body')\n")],
    'json_none': [(B, "                self._raise(BodyParsingError('Malformed JSON body'), RequestError)\n", "                return None\n")],
    'markup_none': [(B, "            if markup is None:\n                raise BodyParsingError('No multipart boundary')\n            elif markup.error", "            if markup.error")],
    'ctor_out': [(B, "        try:\n            if mp is not None:\n                markup = MultipartMarkup(mp.group(1).strip().strip('\"'))\n            body", "        if mp is not None:\n            markup = MultipartMarkup(mp.group(1).strip().strip('\"'))\n        try:\n            body")],
    'ctor_value': [(M, "            raise InvalidBoundaryError(f'The {CR}", "            raise ValueError(f'The {CR}")],
    'size_escape': [(B, "            yield from FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size)\n        except RequestError as err:", "            yield from FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size)\n        except BodyParsingError as err:")],
    'body_escape': [(B, "            body.ombott_markup = markup\n        except RequestError as err:", "            body.ombott_markup = markup\n        except BodyParsingError as err:")],
    'not_mapped': [(B, "            body.ombott_markup = markup\n        except RequestError as err:\n            self._raise(err, RequestError)", "            body.ombott_markup = markup\n        except RequestError as err:\n            self._raise(err)")],
    'not_mapped2': [(OM, "        request_errors.RequestError: HTTPError(400, 'Bad request'),\n", "")],
    'parse_stop': [(M, "        except Exception as exc:\n            self.error = exc\n", "        except StopMarkupException as exc:\n            self.error = exc\n        except BaseMarkupException:\n            pass\n")],
    'no_data': [(M, "            if not data:\n                raise BodyParsingError(\n                    f'Malformed multipart/formdata, no data for field: [{headers_slice[0]}:{headers_slice[1]}]'\n                )\n", "            if not data:\n                data = 'data', [headers_slice[1] + 4, src.seek(0, 2)]\n")],
    'data_assert': [(M, "            if not data:\n                raise BodyParsingError(\n                    f'Malformed multipart/formdata, no data for field: [{headers_slice[0]}:{headers_slice[1]}]'\n                )\n", "            assert data\n")],
    'noname': [(M, "            raise BodyParsingError(f'Noname field", "            raise TypeError(f'Noname field")],
    'split_colon': [(M, "        htype, rest = s.split(':', 1)\n", "        parts = s.split(':', 1)\n        htype, rest = parts[0], parts[1]\n")],
    'opt_none': [(M, "            if v is not None:\n                v = v.strip().strip('\"')\n", "            v = v.strip().strip('\"')\n")],
    'opt_first': [(M, "        hvalue = next(opt_iter).group(1).strip()\n", "        hvalue = cls._patt.match(rest).group(1).strip()\n")],
    'map500': [(OM, "request_errors.RequestError: HTTPError(400", "request_errors.RequestError: HTTPError(500")],
    'qsl_utf': [(B, "touni(self._get_body_string(), 'latin1')", "touni(self._get_body_string())")],
    'qsl_unq': [(H, "            value = urlunquote(qs[i:j].replace('+', ' '))", "            value = urlunquote(qs[i:j].replace('+', ' '), errors='strict')")],
    'hex': [(B, "        except ValueError:\n            raise parsing_err\n        if rest_len", "        except TypeError:\n            raise parsing_err\n        if rest_len")],
    'start_idx': [(M, "            chunk_start = chunk[base: base + 1]\n            if not chunk_start:\n                return\n\n            if chunk_start == CR:\n", "            chunk_start = chunk[base: base + 1]\n            if not chunk_start:\n                return\n\n            if chunk_start == LF:\n                raise BodySizeError(len(chunk) / 0)\n            if chunk_start == CR:\n")] if False else [(M, "    max_read: int\n    ) -> int:\n", "    max_read: int\n    ) -> int:\n")],
    'clen': [(H, "content_length = HeaderProperty('Content-Length', reader=int, default=-1)", "content_length = HeaderProperty('Content-Length', reader=int, default=-1)\n    size = 0"), (H, "        self.headers = HeaderDict(headers) if headers else HeaderDict()\n", "        self.headers = HeaderDict(headers) if headers else HeaderDict()\n        self.size = self.content_length\n")],
    'iter_lazy': [(B, "        except RequestError as err:\n            self._raise(err, RequestError)\n\n    @cache_in('environ[ ombott.request.forms ]'", "        except BodySizeError as err:\n            self._raise(err, RequestError)\n\n    @cache_in('environ[ ombott.request.forms ]'")],
}
del BUGS['start_idx']
REFS = {
    'exc_base': [(M, X, "            except (LookupError, ValueError, StopIteration, AttributeError) as err:\n")],
    'json_helper': [(B, "            try:\n                return json_mod.loads(b)\n" + J + "                self._raise(BodyParsingError('Malformed JSON body'), RequestError)\n", "            return self._loads(b)\n\n    def _loads(self, b):\n        try:\n            return json_mod.loads(b)\n        except (ValueError, RecursionError) as err:\n            self._raise(BodyParsingError('Malformed JSON body: %s' % err), RequestError)\n")],
    'markup_first': [(B, "            if markup is None:\n                raise BodyParsingError('No multipart boundary')\n            elif markup.error is not None:\n                raise BodyParsingError('Malformed multipart body') from markup.error\n", "            error = 'No multipart boundary' if markup is None else markup.error\n            if error is not None:\n                raise BodyParsingError('Malformed multipart body: %s' % (error,))\n")],
    'data_cond': [(M, "        while headers:\n            sec_name, headers_slice = headers\n", "        while headers is not None:\n            sec_name, headers_slice = headers\n")],
    'name_get': [(M, "self.name = header.options['name']", "self.name = header.options.get('name')")],
    'map_get': [(R, "        for err_cls in (err.__class__, except_class):\n            out_err = errors_map.get(err_cls)\n            if out_err:\n                err = self._fresh(out_err)\n                break\n        raise err\n", "        out_err = errors_map.get(err.__class__) or errors_map.get(except_class)\n        raise self._fresh(out_err) if out_err else err\n")],
}
