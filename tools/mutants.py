LC = 'loop_control.py'
M('P10', 'V', LC, "for i in sorted(self.trigger_lists.keys()):\n            # all the objects having this trigger order could be remote\n", "for i in self.trigger_lists.keys():\n")
M('P10', 'V', LC, "element.check_ready(self.t)", "element.check_ready(self.t + self.dt)")
M('P10', 'V', LC, "if element.inputs_changed:\n                        element.trigger()", "if element.inputs_changed and i > 0:\n                        element.trigger()")
M('P10', 'V', LC, "if element.inputs_changed:\n                        element.post_trigger()", "element.post_trigger()")
M('P10', 'V', LC, "        self.t += self.dt\n", "        if self.run_time > 0:\n            self.t += self.dt\n")
M('P10', 'V', LC, "self.t < self.t0 + self.run_time", "self.t <= self.t0 + self.run_time")
M('P10', 'V', LC, "self.t < self.t0 + self.run_time", "self.t < self.run_time")
M('P10', 'V', LC, "                    element.finalize()\n                except:\n                    print('Exception in', element.name)\n                    raise", "                    element.finalize()\n                except:\n                    print('Exception in', element.name)")
M('P10', 'V', LC, "                    element.finalize()\n", "                    if element.outputs:\n                        element.finalize()\n")
M('P10', 'V', LC, "                    element.sanity_check()\n", "")
M('P10', 'V', LC, "element.send_outputs(delayed_only=True, first_mpi_send=False)", "element.send_outputs(skip_delayed=True, first_mpi_send=False)")
M('P10', 'V', LC, "        self.t = self.t0\n", "        self.t = 0\n")
M('P10', 'V', LC, "self.trigger_lists[idx].append(obj)", "if obj.outputs:\n            self.trigger_lists[idx].append(obj)")
M('P10', 'V', 'simul.py', "self.loop.add(obj, idx)", "self.loop.add(obj, 0)")
M('P10', 'V', 'simul.py', "            if name not in self.remote_objs_ranks:\n                obj", "            if name not in self.remote_objs_ranks and params[name].get('outputs'):\n                obj")
# refactorings
M('P10', 'Q', LC, "self.t < self.t0 + self.run_time", "self.t - self.t0 < self.run_time")
M('P10', 'Q', (LC, """            if MPI_DBG: print(process_rank, 'before trigger', flush=True)
            for element in self.trigger_lists[i]:
                try:
                    if element.inputs_changed:
                        element.trigger()
                except:
                    print('Exception in', element.name, flush=True)
                    raise
""", """            self._trigger_group(self.trigger_lists[i])
"""), (LC, "    def finish(self):\n", """    def _trigger_group(self, group):
        for element in group:
            if not element.inputs_changed:
                continue
            try:
                element.trigger()
            except Exception:
                print('Exception in', element.name, flush=True)
                raise

    def finish(self):
"""))
M('P10', 'Q', (LC, """        for i in sorted(self.trigger_lists.keys()):
            for element in self.trigger_lists[i]:
                try:
                    element.finalize()
                except:
                    print('Exception in', element.name)
                    raise""", """        for element in self._in_order():
            try:
                element.finalize()
            except:
                print('Exception in', element.name)
                raise

    def _in_order(self):
        return [element for i in sorted(self.trigger_lists) for element in self.trigger_lists[i]]"""))
M('P10', 'Q', (LC, """        for i in sorted(self.trigger_lists.keys()):
            for element in self.trigger_lists[i]:
                try:
                    element.finalize()""", """        for i, group in sorted(self.trigger_lists.items(), key=lambda kv: kv[0]):
            for element in group:
                try:
                    element.finalize()"""))
M('P10', 'Q', (LC, "        self.t += self.dt\n        self.iter_counter += 1\n", "        self.iter_counter = self.iter_counter + 1\n        new_t = self.t + self.dt\n        self.t = new_t\n"))
M('P10', 'Q', (LC, "        while self.run_time < 0 or self.t < self.t0 + self.run_time:\n", "        while self._more():\n"), (LC, "    def finish(self):\n", """    def _more(self):
        if self.run_time < 0:
            return True
        return self.t < self.t0 + self.run_time

    def finish(self):
"""))
M('P10', 'Q', (LC, """        for i in sorted(self.trigger_lists.keys()):
            for element in self.trigger_lists[i]:
                try:
                    element.finalize()
                except:
                    print('Exception in', element.name)
                    raise""", """        for element in self._in_order():
            try:
                element.finalize()
            except:
                print('Exception in', element.name)
                raise

    def _in_order(self):
        for i in sorted(self.trigger_lists):
            for element in self.trigger_lists[i]:
                yield element"""))
BP = 'base_processing_obj.py'
M('P11', 'V', BP, "tt >= self.current_time", "tt > self.current_time")
M('P11', 'V', BP, "tt >= self.current_time", "tt == self.current_time")
M('P11', 'V', BP, "tt is not None and tt >= self.current_time", "tt is not None and tt >= 0")
M('P11', 'V', BP, "                    return True\n        else:\n            return False", "                    return True\n            return False\n        return False")
M('P11', 'V', BP, "        # Reset inputs flag\n        self.inputs_changed = False\n", "        if self.target_device_idx < 0:\n            self.inputs_changed = False\n")
M('P11', 'V', BP, "self.local_inputs[input_name] is None and not input.optional", "self.local_inputs[input_name] is None and input.optional")
M('P11', 'Q', BP, "        if len(self.inputs) == 0:\n            return True\n", "")
M('P11', 'V', BP, "                self.local_inputs[k] is None)\n               for k in self.inputs):\n            return True", "                self.local_inputs[k] is None)\n               for k in self.inputs):\n            return False")
M('P11', 'V', BP, "= input_obj.get(self.target_device_idx)", "= input_obj.get(-1)")
M('P11', 'V', 'processing_objects/base_generator.py', "        super().post_trigger()\n", "        if self.verbose:\n            super().post_trigger()\n")
M('P11', 'Q', BP, """            tt_list = [x.generation_time for x in input_obj if x is not None]
            for tt in tt_list:
                if tt is not None and tt >= self.current_time:
                    return True
        else:
            return False
""", """            for x in input_obj:
                if x is None or x.generation_time is None:
                    continue
                if self.current_time <= x.generation_time:
                    return True
        return False
""")
M('P11', 'Q', BP, """            tt_list = [x.generation_time for x in input_obj if x is not None]
            for tt in tt_list:
                if tt is not None and tt >= self.current_time:
                    return True
        else:
            return False
""", """            if self._refreshed(input_obj):
                return True
        return False

    def _refreshed(self, objs):
        stamps = [x.generation_time for x in objs if x is not None]
        return any(t is not None and not t < self.current_time for t in stamps)
""")
M('P11', 'Q', BP, """        for input_name, input_obj in self.local_inputs.items():
            if type(input_obj) is not list:
                input_obj = [input_obj]

            tt_list = [x.generation_time for x in input_obj if x is not None]
            for tt in tt_list:
                if tt is not None and tt >= self.current_time:
                    return True
        else:
            return False
""", """        changed = False
        for input_obj in self.local_inputs.values():
            objs = input_obj if isinstance(input_obj, list) else [input_obj]
            for obj in objs:
                tt = None if obj is None else obj.generation_time
                if tt is not None and tt >= self.current_time:
                    changed = True
                    break
            if changed:
                break
        return changed
""")
M('P11', 'Q', BP, """        for input_name, input in self.inputs.items():
            if self.local_inputs[input_name] is None and not input.optional:
                raise ValueError(f'Input {input_name} for object {self} has not been set')
""", """        for input_name, input in self.inputs.items():
            if input.optional:
                continue
            if self.local_inputs[input_name] is None:
                raise ValueError(f'Input {input_name} for object {self} has not been set')
""")
M('P11', 'Q', (BP, """        if not self.inputs_changed:
            raise RuntimeError("post_trigger() called when the object's inputs have not changed")
""", """        self._assert_ready("post_trigger")
"""), (BP, "    def trigger_code(self):\n        '''\n        Any", """    def _assert_ready(self, who):
        if self.inputs_changed:
            return
        raise RuntimeError(who + "() called when the object's inputs have not changed")

    def trigger_code(self):
        '''
        Any"""))
M('P09', 'V', 'processing_objects/modalrec.py', "        self.modes.generation_time = self.current_time\n", "        self.modes = BaseValue(value=self.modes.value)\n        self.modes.generation_time = self.current_time\n")
M('P09', 'V', 'processing_objects/base_generator.py', "        super().post_trigger()\n", "        super().post_trigger()\n        self.outputs['output'] = BaseValue(self.nsize)\n")
# P12
PO = 'processing_objects/'
M('P12', 'V', PO+'data_buffer.py', "self.storage[k][self.step_counter] = v.copy()", "self.storage[k][self.step_counter] = v")
M('P12', 'V', PO+'data_store.py', "v = cpuArray(value, force_copy=True)", "v = cpuArray(value)")
M('P12', 'V', PO+'demodulator.py', "self.data_history.append(mode_data.copy())", "self.data_history.append(mode_data)")
M('P12', 'V', PO+'gain_optimizer.py', "self.comm_hist.append(self.current_out_comm.copy())", "self.comm_hist.append(self.current_out_comm)")
M('P12', 'V', PO+'base_sprint_estimator.py', "self.slopes_history.append(in_slopes.slopes.copy())", "self.slopes_history.append(in_slopes.slopes)")
M('P12', 'V', PO+'base_sprint_estimator.py', "self.slopes_history.append(in_slopes.slopes.copy())", "s = in_slopes.get_value()\n        self.slopes_history.append(s[:])")
# P13
M('P13', 'V', PO+'modulated_pyramid.py', "        self.pyr_image *=0\n", "")
M('P13', 'V', PO+'modulated_double_roof.py', "        self.roof1_image *= 0\n", "")
M('P13', 'V', PO+'atmo_propagation.py', "            if self.mergeLayersContrib:\n                output_ef = self.outputs['out_'+source_name+'_ef']\n                output_ef.reset()", "            if self.mergeLayersContrib:\n                output_ef = self.outputs['out_'+source_name+'_ef']")
M('P13', 'V', PO+'poly_chrom_wfs.py', "        self._out_i.i[:] = 0.0\n", "")
M('P13', 'Q', PO+'modulated_pyramid.py', "        self.pyr_image *=0\n", "        self.pyr_image[:] = 0\n")
M('P13', 'Q', PO+'modulated_pyramid.py', "        self.pyr_image *=0\n", "        self.pyr_image.fill(0)\n")
M('P13', 'Q', PO+'modulated_pyramid.py', "        self.pyr_image *=0\n", "        self.pyr_image = self.xp.zeros_like(self.pyr_image)\n")
M('P12', 'V', PO+'gain_optimizer.py', "        # Get current inputs\n", "        if t > 0:\n            self.last_peak = self.current_out_comm.max()\n")
M('P12', 'Q', PO+'demodulator.py', "self.data_history.append(mode_data.copy())", "self.data_history.append(self.xp.array(mode_data))")
M('P12', 'Q', PO+'data_buffer.py', "self.storage[k][self.step_counter] = v.copy()", "sample = v.copy()\n                self.storage[k].update({self.step_counter: sample})")
# P14
M('P14', 'V', PO+'base_filter.py', "        if self.local_inputs['gain_mod'] is not None:\n            gain_mod", "        if self._nfilter > 0:\n            gain_mod")
M('P14', 'V', PO+'gain_optimizer.py', "        if self.local_inputs['optical_gain'] is not None:\n", "        if self.inputs['optical_gain'].optional:\n")
M('P14', 'V', PO+'dynamic_iir_filter.py', "            gain_input = self.local_inputs['int_gain']\n", "            gain_input = self.local_inputs['int_gain']\n            self.last_gain = gain_input.value\n")
M('P14', 'V', PO+'extended_source.py', "            if psf is not None and np.sum", "            if np.sum")
M('P14', 'Q', PO+'base_filter.py', "        if self.local_inputs['gain_mod'] is not None:\n            gain_mod = self.local_inputs['gain_mod'].value\n", "        source = self.local_inputs['gain_mod']\n        if source:\n            gain_mod = source.value\n")
M('P14', 'Q', PO+'gain_optimizer.py', "        if self.local_inputs['optical_gain'] is not None:\n            self.current", "        has_gain = self.local_inputs['optical_gain'] is not None\n        if has_gain:\n            self.current")
# P15
M('P15', 'V', PO+'modulated_pyramid.py', "        self.pyr_image *=0\n", "        self.pyr_image = self.xp.zeros_like(self.pyr_image)\n")
M('P15', 'V', PO+'modulated_pyramid.py', "        self.pup_pyr_tot[:] = self.xp.roll(self.pyr_image, self.roll_array, self.roll_axis )", "        self.pup_pyr_tot = self.xp.roll(self.pyr_image, self.roll_array, self.roll_axis )")
M('P15', 'V', PO+'ext_source_pyramid.py', "            if self.valid_idx is None or self.valid_idx.shape[0] != self.mod_steps:\n                self.valid_idx", "            if True:\n                self.valid_idx")
M('P15', 'V', PO+'modulated_pyramid.py', "        self.fpsf *=0\n", "        self.fpsf *=0\n        self.seen = self.inputs['in_ef'].get(-1).generation_time\n")
M('P15', 'Q', PO+'modulated_pyramid.py', "        self.pyr_image *=0\n", "        image = self.pyr_image\n        image[:] = 0\n")
# P16
M('P16', 'V', PO+'ccd.py', "self._photon_rng.poisson(pixels)", "self.xp.random.poisson(pixels)")
M('P16', 'V', PO+'ccd.py', "self._readout_rng = self.xp.random.default_rng(self._readout_seed)", "self._readout_rng = self.xp.random.default_rng()")
M('P16', 'V', PO+'random_generator.py', "            seed = int(seed)\n", "            seed = int(self.xp.around(self.xp.random.random() * 1e4)) + int(seed)\n")
M('P16', 'V', PO+'vibration_generator.py', "nmodes, psd=psd, freq=freq, seed=seed,", "nmodes, psd=psd, freq=freq,")
M('P16', 'V', 'lib/utils.py', "rng = xp.random.default_rng(seed)", "rng = xp.random.default_rng()")
M('P16', 'V', 'lib/calc_phasescreen.py', "    rng = xp.random.RandomState(cpuArray(seed))\n", "    import time\n    rng = xp.random.RandomState(int(cpuArray(seed)) + time.time_ns() % 7)\n")
M('P16', 'V', PO+'atmo_infinite_evolution.py', "random_seed=int(seed[i]),", "")
M('P16', 'V', PO+'ccd.py', "            ron_vector = self._readout_rng.standard_normal", "            self._readout_rng = self.xp.random.default_rng(self._readout_seed)\n            ron_vector = self._readout_rng.standard_normal")
M('P16', 'Q', PO+'ccd.py', "self._readout_rng = self.xp.random.default_rng(self._readout_seed)", "make = self.xp.random.default_rng\n        self._readout_rng = make(seed=readout_seed)")
M('P16', 'Q', PO+'random_generator.py', "        if seed is not None:\n            seed = int(seed)\n        else:\n            seed = int(self.xp.around(self.xp.random.random() * 1e4))\n", "        if seed is None:\n            seed = int(self.xp.around(self.xp.random.random() * 1e4))\n        seed = int(seed)\n")
DO = 'data_objects/'
M('P17', 'V', DO+'electric_field.py', "        hdr['S0'] = self.S0\n", "")
M('P17', 'V', DO+'electric_field.py', "ef = ElectricField(dimx, dimy, pitch, S0,", "ef = ElectricField(dimx, dimy, S0, pitch,")
M('P17', 'V', DO+'electric_field.py', "        hdr['DIMX'] = self.field[0].shape[1]\n        hdr['DIMY'] = self.field[0].shape[0]\n", "        hdr['DIMX'] = self.field[0].shape[0]\n        hdr['DIMY'] = self.field[0].shape[1]\n")
M('P17', 'V', DO+'ifunc.py', "            ifunc = hdul[exten].data.T\n", "            ifunc = hdul[exten].data\n")
M('P17', 'V', DO+'pupdata.py', "            cx = hdul[3].data\n", "            cx = hdul[4].data\n")
M('P17', 'V', DO+'layer.py', "hdr['SHIFTY'] = float(self.shiftXYinPixel[1])", "hdr['SHIFTY2'] = float(self.shiftXYinPixel[1])")
M('P17', 'V', DO+'ssr_filter_data.py', "            D = hdul['D'].data", "            D = hdul['C'].data")
M('P17', 'V', DO+'subap_data.py', "        hdr['NX'] = self.nx\n", "        hdr['NX'] = self.ny\n")
M('P17', 'V', DO+'laser_launch_telescope.py', "            beacon_focus = hdr['BEAC_FOC'],\n", "")
M('P17', 'V', DO+'slopes.py', "            slopes.pupdata_tag = hdr.get('PUPDTAG', None)\n", "")
M('P17', 'Q', DO+'pupdata.py', "            ind_pup = hdul[1].data\n            radius = hdul[2].data\n", "            ind_pup, radius = [hdul[i].data for i in (1, 2)]\n")
M('P17', 'Q', DO+'intensity.py', "        dimx = hdr['DIMX']\n        dimy = hdr['DIMY']\n        intensity = Intensity(dimx, dimy, target", "        size = {'dimx': hdr['DIMX'], 'dimy': hdr['DIMY']}\n        intensity = Intensity(**size, target")
M('P17', 'Q', DO+'electric_field.py', "        hdr['DIMX'] = self.field[0].shape[1]\n        hdr['DIMY'] = self.field[0].shape[0]\n", "        ny, nx = self.field[0].shape\n        hdr['DIMX'] = nx\n        hdr['DIMY'] = ny\n")
M('P18', 'V', DO+'slopes.py', "        self.slopes[self.indices_y] = value\n", "        self.slopes[self.indices_x] = value\n")
M('P18', 'V', DO+'electric_field.py', "        self.field[1, :, :] = self.to_xp(value)\n", "        self.field[0, :, :] = self.to_xp(value)\n")
M('P18', 'V', DO+'electric_field.py', "        self.field[:] = self.to_xp(v)\n", "        self.phaseInNm = v[1]\n")
M('P18', 'V', DO+'pixels.py', "        self.pixels[:] = self.to_xp(v)\n", "        self.pixels = self.to_xp(v)\n")
M('P18', 'V', DO+'pupilstop.py', "        self.field[0][:]= self.to_xp(v)\n", "        self.field[1][:]= self.to_xp(v)\n")
M('P18', 'V', DO+'spatio_temp_array.py', "                self.array[...] = converted\n", "                pass\n")
M('P18', 'V', 'base_value.py', "                self.value[...] = self.to_xp(val)\n", "                self.value = self.to_xp(val, dtype=self.dtype)\n")
M('P18', 'V', DO+'convolution_kernel.py', "            self.real_kernels = self.xp.zeros(expected_shape, dtype=self.dtype)\n", "            self.real_kernels = self.xp.zeros(expected_shape, dtype=self.dtype)\n            return\n")
M('P18', 'V', DO+'intensity.py', "        self.i[:]= self.to_xp(v)\n", "        self.i += self.to_xp(v)\n")
M('P18', 'Q', DO+'electric_field.py', "        self.field[:] = self.to_xp(v)\n", "        self.A = v[0]\n        self.phaseInNm = v[1]\n")
M('P18', 'Q', DO+'electric_field.py', "        self.field[:] = self.to_xp(v)\n", "        for i in range(2):\n            self.field[i] = self.to_xp(v[i])\n")
M('P18', 'Q', DO+'pixels.py', "        self.pixels[:] = self.to_xp(v)\n", "        self.xp.copyto(self.pixels, self.to_xp(v))\n")
M('P18', 'Q', DO+'slopes.py', "        self.slopes[self.indices_y] = value\n", "        idx = self.indy()\n        self.slopes[idx] = value\n")
S = 'simul.py'
M('P19', 'V', S, "                        pars2[parname] = [self.objs[x] for x in value]\n", "                        pars2[parname] = [self.objs[x] for x in value if x in self.objs]\n")
M('P19', 'V', S, "                        data = {x : self.objs[x] for x in value}\n", "                        data = {x.lower() : self.objs[x] for x in value}\n")
M('P19', 'V', S, "                    if build_this_object:\n                        data = self.objs[value]\n                        pars2[parname] = data\n", "                    if build_this_object:\n                        data = self.objs[value]\n                        pars2.setdefault(name, data)\n")
M('P19', 'V', S, "            my_params.update(pars2)\n            try:", "            pars2.update(my_params)\n            try:")
M('P19', 'V', S, "                print('Exception building', key)\n                raise\n", "                print('Exception building', key)\n                continue\n")
M('P19', 'V', S, "                self.objs[key] = klass.restore(filename, target_device_idx=target_device_idx)\n", "                self.objs[key] = klass.restore(filename)\n")
M('P19', 'V', S, "                        parobj = partype.restore(filename, target_device_idx=target_device_idx)\n", "                        parobj = partype.restore(filename)\n")
M('P19', 'V', S, "                        data = cm.read_data(value)\n                        pars2[parname] = data\n", "                        data = cm.read_data(parname)\n                        pars2[parname] = data\n")
M('P19', 'V', S, "                            obj.tag = tag\n                            loaded.append(obj)\n", "                            obj.tag = tag\n                            if obj not in loaded:\n                                loaded.append(obj)\n")
M('P19', 'V', S, "                    if build_this_object:\n                        pars2[name] = value\n", "                    if build_this_object and value is not None:\n                        pars2[name] = value\n")
M('P19', 'V', S, "                    if build_this_object:\n                        pars2[name] = value\n", "                    if build_this_object and value:\n                        pars2[name] = value\n")
M('P19', 'V', S, "(issubclass(klass, BaseDataObj) and (par_target_rank == None))", "(issubclass(klass, BaseDataObj) and (par_target_rank == 0))")
M('P19', 'V', S, "                self.remote_objs_ranks[key] = target_rank\n", "                self.remote_objs_ranks[key] = 0\n")
M('P19', 'V', S, "                    raise ValueError(f'Parameter {parname} is not expected by class {classname}')\n", "                    print(f'Parameter {parname} is not expected by class {classname}')\n                    continue\n")
M('P19', 'V', S, "                params[objname].update(values)\n", "                params[objname] = values\n")
M('P19', 'V', S, "                if idx != self.simul_idx:\n", "                if idx > self.simul_idx:\n")
M('P19', 'V', S, "                if name.endswith('_ref'):\n                    objlist", "                if name.endswith('_list_ref'):\n                    objlist")
M('P19', 'V', S, "                            loaded[dict_key] = obj\n", "                            loaded[tag] = obj\n")
M('P19', 'V', S, "            self.objs[key].name = key\n\n            # TODO", "            self.objs[key].name = classname\n\n            # TODO")
M('P19', 'V', S, "                    for ending in ['_ref', '_data', '_object']:\n", "                    for ending in ['_ref', '_object']:\n")
M('P19', 'V', 'calib_manager.py', "            'intmat': 'im/',\n", "")
M('P19', 'V', 'calib_manager.py', "            'PyrPupdataCalibrator': 'pupils/',\n", "            'PyrPupdataCalibrator': 'pupdata/',\n")
M('P19', 'Q', S, "                        pars2[parname] = [self.objs[x] for x in value]\n", "                        refs = []\n                        for x in value:\n                            refs.append(self.objs[x])\n                        pars2[parname] = refs\n")
M('P19', 'Q', S, "            my_params.update(pars2)\n            try:\n                self.objs[key] = klass(**my_params)\n", "            try:\n                obj = klass(**{**my_params, **pars2})\n                self.objs[key] = obj\n")
M('P19', 'Q', S, "            build_this_object = (process_rank == target_rank) or \\\n                                (issubclass(klass, BaseDataObj) and (par_target_rank == None)) or \\\n                                (issubclass(klass, BaseDataObj) and (par_target_rank == process_rank)) or \\\n                                (process_rank == None)\n", "            everywhere = self.is_dataobj[key] and par_target_rank is None\n            build_this_object = process_rank is None or process_rank == target_rank or everywhere\n")
M('P19', 'Q', S, "                elif name.endswith('_ref') and parname != name:\n                    if build_this_object:\n                        data = self.objs[value]\n                        pars2[parname] = data\n                    a_ref = {}\n                    a_ref['start'] = key\n                    a_ref['end'] = value\n                    self.references.append(a_ref)\n", "                elif name.endswith('_ref') and parname != name:\n                    if build_this_object:\n                        pars2[parname] = self.objs[value]\n                    self.references.append({'start': key, 'end': value})\n")
M('P19', 'Q', (S, "            if name == 'remove':\n                for objname in values:\n                    if objname not in params:\n                        raise ValueError(f'Parameter file has no object named {objname}')\n                    del params[objname]\n                    print(f'Removed {objname}')\n                    # Remove corresponding inputs\n                    params = self.remove_inputs(params, objname)\n", "            if name == 'remove':\n                self._drop(params, values)\n"), (S, "    def apply_overrides(self, params):\n", "    def _drop(self, params, names):\n        for objname in names:\n            if objname not in params:\n                raise ValueError(f'Parameter file has no object named {objname}')\n            params.pop(objname)\n            self.remove_inputs(params, objname)\n\n    def apply_overrides(self, params):\n"))
M('P20', 'V', S, "                    maxdelay = max([self.output_delay(x) for x in output_name])\n", "                    maxdelay = min([self.output_delay(x) for x in output_name])\n")
M('P20', 'V', S, "                    maxdelay = max([self.output_delay(x) for x in output_name])\n", "                    maxdelay = self.output_delay(output_name[0])\n")
M('P20', 'V', S, "            if maxdelay == 0:\n                return False\n        return True\n", "            if maxdelay != 0:\n                return True\n        return False\n")
M('P20', 'V', S, "            if isinstance(output_name, str):\n                maxdelay = self.output_delay(output_name)\n            elif", "            maxdelay = -1\n            if isinstance(output_name, str) and ':' not in output_name:\n                maxdelay = -1\n            elif")
M('P20', 'V', S, "                    if owner == obj_name and delay < 0:\n", "                    if owner == obj_name and delay <= 0:\n")
M('P20', 'V', S, "                    if owner == obj_name and delay < 0:\n", "                    if owner == obj_name and delay < -1:\n")
M('P20', 'V', S, "                if self.has_delayed_output(leaf, params):\n                    continue\n", "")
M('P20', 'V', S, "                del params[leaf]\n                self.remove_inputs(params, leaf)\n", "                del params[leaf]\n            self.remove_inputs(params, leaf)\n")
M('P20', 'V', S, "                        newlist = [x for x in output_name if self.output_owner(x) != obj_to_remove]\n", "                        newlist = [x for x in output_name if self.output_owner(x) == obj_to_remove]\n")
M('P20', 'V', S, "                        if owner == obj_to_remove:\n                            del obj", "                        if owner.startswith(obj_to_remove):\n                            del obj")
M('P20', 'V', S, "                obj[key] = obj_inputs_copy\n", "                obj['input'] = obj_inputs_copy\n")
M('P20', 'V', S, "                order_index.append(index)\n", "                order_index.append(len(order))\n")
M('P20', 'Q', S, "        for input_name, output_name in p['inputs'].items():\n            if isinstance(output_name, str):\n                maxdelay = self.output_delay(output_name)\n            elif isinstance(output_name, list):\n                maxdelay = -1\n                if len(output_name) > 0:\n                    maxdelay = max([self.output_delay(x) for x in output_name])\n            if maxdelay == 0:\n                return False\n        return True\n", "        for sources in p['inputs'].values():\n            names = [sources] if isinstance(sources, str) else sources\n            if any(self.output_delay(x) == 0 for x in names):\n                return False\n        return True\n")
M('P20', 'Q', S, "                    owner = self.output_owner(x)\n                    delay = self.output_delay(x)\n                    if owner == obj_name and delay < 0:\n", "                    output = self.split_output(x)\n                    if output.delay < 0 and output.obj_name == obj_name:\n")
M('P20', 'Q', S, "            leaves = [name for name, pars in params.items() if self.is_leaf(pars)]\n            if len(leaves) == 0:\n                break\n            start = len(params)\n            for leaf in leaves:\n                if self.has_delayed_output(leaf, params):\n                    continue\n                order.append(leaf)\n", "            leaves = []\n            for name, pars in params.items():\n                if self.is_leaf(pars):\n                    leaves.append(name)\n            if not leaves:\n                break\n            start = len(params)\n            ready = list(leaves)\n            for leaf in ready:\n                if self.has_delayed_output(leaf, params):\n                    continue\n                order.append(leaf)\n")
M('P20', 'Q', S, "                obj_inputs_copy = deepcopy(obj[key])\n                for input_name, output_name in obj[key].items():\n", "                obj_inputs_copy = dict(obj[key])\n                for input_name, output_name in list(obj[key].items()):\n")

# P21
C = 'connections.py'; B = 'base_data_obj.py'; BP = 'base_processing_obj.py'
M('P21','V', C, "        if self.cloned_value is None:\n            self.cloned_value = value.copyTo", "        if self.cloned_value is None or self.tag:\n            return value\n        if self.cloned_value is None:\n            self.cloned_value = value.copyTo")
M('P21','V', C, "            value.transferDataTo(self.cloned_value)\n", "            if value.generation_time > self.cloned_value.generation_time:\n                value.transferDataTo(self.cloned_value)\n")
M('P21','V', C, "            elif self.output_ref.target_device_idx == target_device_idx:\n", "            elif self.output_ref.target_device_idx == target_device_idx and self.cloned_value is None:\n")
M('P21','V', C, "if first_mpi_receive or self.cloned_value.get_value() is None:", "if first_mpi_receive:")
M('P21','V', C, "source=self.remote_rank, tag=self.tag+1)", "source=self.remote_rank, tag=self.tag)")
M('P21','V', C, "            self.cloned_value.set_value(buffer)\n", "")
M('P21','V', C, "            self.cloned_value.generation_time = gen_time\n", "")
M('P21','V', C, "                new_value.xp = cp\n            else:\n                new_value.xp = np\n", "                new_value.xp = np\n            else:\n                new_value.xp = cp\n")
M('P21','V', C, "v.get(target_device_idx) for v in self.input_values))", "v.get(target_device_idx) for v in self.input_values if not v.optional))")
M('P21','V', C, "                self.append(v, remote_rank, tag)\n", "                self.append(v)\n")
M('P21','V', C, "if len(values_list) > 1:", "if len(values_list) > 2:")
M('P21','V', C, "        if not isinstance(item, self.output_ref_type) and remote_rank is None:", "        if not isinstance(item, self.output_ref_type) and remote_rank is not None:")
M('P21','V', B, "        destobj.generation_time = self.generation_time\n", "")
M('P21','V', B, "            if self_type not in array_types:\n                continue\n", "            if self_type not in array_types or self_type != type(getattr(destobj, attr, None)):\n                continue\n")
M('P21','V', B, "                            reallocate = True\n                elif", "                            pass\n                elif")
M('P21','V', B, "            self.transferDataTo(cloned, force_reallocation=True)", "            self.transferDataTo(cloned)")
M('P21','V', B, "            cloned.target_device_idx = target_device_idx\n\n            self.transferDataTo(cloned, force_reallocation=True)", "            self.transferDataTo(cloned, force_reallocation=True)\n            cloned.target_device_idx = target_device_idx")
M('P21','V', B, "attr_list = [attr for attr in dir(self) if attr not in pp]", "attr_list = [attr for attr in dir(self) if attr not in pp and not attr.startswith('_')]")
M('P21','V', B, "            reallocate = force_reallocation\n", "            reallocate = False\n")
M('P21','V', B, "                    dest_attr.set(self_attr)\n", "                    dest_attr = cp.asarray(self_attr)\n")
M('P21','V', BP, "            item.xp = xp_orig\n", "")
M('P21','V', BP, "        if first_mpi_send or not dest_tag in self.sent_valid:", "        if first_mpi_send:")
M('P21','V', BP, "        if item.get_value() is not None:\n            self.sent_valid", "        if True:\n            self.sent_valid")
M('P21','V', BP, "process_comm.ibsend(item.generation_time,", "process_comm.ibsend(self.current_time,")
M('P21','V', BP, "if delay >= 0 and delayed_only:", "if delay > 0 and delayed_only:")
M('P21','V', BP, "if delay < 0 and skip_delayed:", "if skip_delayed:")
M('P21','V', BP, "self.send_remote_output(item, dest_rank, dest_tag, first_mpi_send, out_name)", "self.send_remote_output(item, dest_rank, dest_tag, out_name=out_name)")
M('P21','V', S, "    s = output_obj_name + '%' + dest_object + '%' + str(output_attr_name) + '%' + str(input_attr_name)", "    s = output_obj_name + '%' + dest_object + '%' + str(output_attr_name)")
M('P21','V', S, "remote_rank = self.remote_objs_ranks[output.obj_name],", "remote_rank = self.remote_objs_ranks[dest_object],")
M('P21','V', S, "                                                                            output.delay))", "                                                                            0))")
M('P21','V', S, "            self.objs[dest_object].inputs[input_name].append(output.ref)", "            self.objs[dest_object].inputs[input_name].set(output.ref)")
M('P21','V', S, "                    if not local_dest_object and output.ref is None:\n", "                    if output.ref is None:\n")
M('P21','V', S, "                        print(f'Exception while connecting {single_output_name} {dest_object}.{input_name}')\n                        raise\n", "                        print(f'Exception while connecting {single_output_name} {dest_object}.{input_name}')\n")
M('P21','V', S, "output_name, delay = output_name.split(':')\n            delay = int(delay)", "output_name, delay = output_name.split(':')\n            delay = int(delay[-1])")
M('P21','V', S, "for single_output_name in output_name if isinstance(output_name, list) else [output_name]:", "for single_output_name in output_name[:1] if isinstance(output_name, list) else [output_name]:")
M('P21','V', S, "                if local_dest_object and input_name != 'input_list':", "                if not local_dest_object and input_name != 'input_list':")
# quiet
M('P21','Q', C, "        return list(flatten(v.get(target_device_idx) for v in self.input_values))", "        values = []\n        for item in self.input_values:\n            values.append(item.get(target_device_idx))\n        return list(flatten(values))")
M('P21','Q', C, "        if self.remote_rank is None:\n            value = self.output_ref\n        else:\n            value = self.receive_new_value(first_mpi_receive=self.cloned_value is None)\n\n        if self.cloned_value is None:\n            self.cloned_value = value.copyTo(target_device_idx)\n        else:\n            value.transferDataTo(self.cloned_value)\n        return self.cloned_value", "        first = self.cloned_value is None\n        value = self.output_ref if self.remote_rank is None else self.receive_new_value(first)\n        if not first:\n            value.transferDataTo(destobj=self.cloned_value)\n        else:\n            self.cloned_value = value.copyTo(target_device_idx)\n        return self.cloned_value")
M('P21','Q', C, "                new_value.xp = cp\n            else:\n                new_value.xp = np\n", "                xp = cp\n            else:\n                xp = np\n            new_value.xp = xp\n")
M('P21','Q', C, "        values_list = super().get(target_device_idx)\n        if len(values_list) > 1:", "        values_list = super().get(target_device_idx)\n        n = len(values_list)\n        if n >= 2:")
M('P21','Q', BP, "        if first_mpi_send or not dest_tag in self.sent_valid:", "        as_object = first_mpi_send or dest_tag not in self.sent_valid\n        if as_object:")
M('P21','Q', BP, "                if delay < 0 and skip_delayed:", "                skip = skip_delayed if delay < 0 else delayed_only\n                if skip and delay < 0:")
M('P21','Q', S, "        send = output.ref is not None and local_dest_object is False\n        recv = output.ref is None and local_dest_object is True\n        local = output.ref is not None and local_dest_object is True\n", "        has_ref = output.ref is not None\n        send = has_ref and not local_dest_object\n        recv = not has_ref and local_dest_object\n        local = has_ref and local_dest_object\n")
M('P21','Q', S, "        if '.' in output_name:\n            obj_name, output_key = output_name.split('.')\n        else:\n            obj_name = output_name\n            output_key = None\n", "        if '.' not in output_name:\n            obj_name, output_key = output_name, None\n        else:\n            parts = output_name.split('.')\n            obj_name = parts[0]\n            output_key = parts[1]\n")
M('P21','Q', S, "    rr = int(hashlib.sha256(s.encode('utf-8')).hexdigest(), 16) % 10**6\n    return rr", "    digest = hashlib.sha256(s.encode('utf-8')).hexdigest()\n    return int(digest, 16) % 10**6")
M('P21','Q', B, "        attr_list = [attr for attr in dir(self) if attr not in pp]\n\n        for attr in attr_list:\n            self_attr", "        for attr in dir(self):\n            if attr in pp:\n                continue\n            self_attr")
M('P13','V','processing_objects/ccd.py',"            self._integrated_i.i *= 0.0\n","")
M('P13','V','processing_objects/windowed_integration.py',"                self.integrated_value *= 0.0\n","")
M('P13','V','processing_objects/dynamic_dark_calibrator.py',"            self.integrated_pixels *= 0\n","")
M('P13','Q','processing_objects/windowed_integration.py',"                self.integrated_value *= 0.0\n","                self.integrated_value = self.xp.zeros_like(self.integrated_value)\n")
M('P13','V','processing_objects/base_operation.py',"                    out[:] = value1 * self.v2\n","                    out[:] = out * value1 * self.v2\n")
M('P13','V','processing_objects/base_operation.py',"                    out[:] = value1 * self.v2\n","                    self.xp.add(out, value1 * self.v2, out=out)\n")
# ---- hand written refactorings of the core: every relevant check stays quiet
def QQ(props, f, old, new):
    for p in props.split():
        M(p, 'Q', f, old, new)
LOOP, BASE, CONN, DATA, SIM = 'loop_control.py', 'base_processing_obj.py', 'connections.py', 'base_data_obj.py', 'simul.py'
QQ('P11 P08', BASE, """        if all((self.inputs[k].optional is True and
                self.local_inputs[k] is None)
               for k in self.inputs):
            return True
""", """        connected = False
        for k in self.inputs:
            if not self.inputs[k].optional or self.local_inputs[k] is not None:
                connected = True
        if not connected:
            return True
""")
QQ('P11 P08', BASE, """        if all((self.inputs[k].optional is True and
                self.local_inputs[k] is None)
               for k in self.inputs):
            return True
""", """        if not any((not self.inputs[k].optional) or (self.local_inputs[k] is not None)
                   for k in self.inputs):
            return True
""")
M('P11', 'Q', BASE, """        if all((self.inputs[k].optional is True and
                self.local_inputs[k] is None)
               for k in self.inputs):
            return True
""", """        for k, inp in self.inputs.items():
            if not inp.optional:
                break
            if self.local_inputs[k] is not None:
                break
        else:
            return True
""")
QQ('P11 P08', BASE, """            tt_list = [x.generation_time for x in input_obj if x is not None]
            for tt in tt_list:
                if tt is not None and tt >= self.current_time:
                    return True
        else:
            return False
""", """            if any(x.generation_time is not None and x.generation_time >= self.current_time for x in input_obj if x is not None):
                return True
        return False
""")
QQ('P11 P08', BASE, """            tt_list = [x.generation_time for x in input_obj if x is not None]
            for tt in tt_list:
                if tt is not None and tt >= self.current_time:
                    return True
        else:
            return False
""", """            for x in input_obj:
                if x is None:
                    continue
                tt = x.generation_time
                if tt is None or tt < self.current_time:
                    continue
                return True
        return False
""")
QQ('P11 P08', BASE, """        for input_name, input_obj in self.local_inputs.items():
            if type(input_obj) is not list:
                input_obj = [input_obj]

            tt_list = [x.generation_time for x in input_obj if x is not None]
            for tt in tt_list:
                if tt is not None and tt >= self.current_time:
                    return True
        else:
            return False
""", """        times = []
        for input_obj in self.local_inputs.values():
            if isinstance(input_obj, list):
                times.extend(x.generation_time for x in input_obj if x is not None)
            elif input_obj is not None:
                times.append(input_obj.generation_time)
        return any(tt is not None and tt >= self.current_time for tt in times)
""")
QQ('P11 P08 P10', BASE, """        if self.checkInputTimes():
            self.inputs_changed = True  # Signal ready for trigger and post_trigger()
            self.prepare_trigger(t)
        else:
            self.inputs_changed = False
            if self.verbose:
                print('No inputs have been refreshed, skipping trigger for object', self.name, flush=True)
        return self.inputs_changed
""", """        self.inputs_changed = self.checkInputTimes()
        if not self.inputs_changed:
            if self.verbose:
                print('No inputs have been refreshed, skipping trigger for object', self.name, flush=True)
            return False
        self.prepare_trigger(t)
        return True
""")
QQ('P11 P08 P10', BASE, """        with show_in_profiler(self.__class__.__name__+'.trigger'):
            if self.target_device_idx >= 0:
                self._target_device.use()
            if self.target_device_idx >= 0 and self.cuda_graph:
                self.cuda_graph.launch(stream=self.stream)
            else:
                self.trigger_code()
""", """        on_gpu = self.target_device_idx >= 0
        with show_in_profiler(type(self).__name__+'.trigger'):
            if on_gpu:
                self._target_device.use()
            if not on_gpu or not self.cuda_graph:
                self.trigger_code()
            else:
                self.cuda_graph.launch(stream=self.stream)
""")
QQ('P11 P08', BASE, """        for input_name, input in self.inputs.items():
            if self.local_inputs[input_name] is None and not input.optional:
                raise ValueError(f'Input {input_name} for object {self} has not been set')
""", """        missing = [k for k, v in self.inputs.items() if not v.optional and self.local_inputs[k] is None]
        for k in missing:
            raise ValueError(f'Input {k} for object {self} has not been set')
""")
QQ('P11 P08', BASE, """        for input_name, input in self.inputs.items():
            if self.local_inputs[input_name] is None and not input.optional:
                raise ValueError(f'Input {input_name} for object {self} has not been set')
""", """        missing = [k for k, v in self.inputs.items() if not v.optional and self.local_inputs[k] is None]
        if missing:
            raise ValueError(f'Inputs {missing} for object {self} have not been set')
""")
QQ('P21 P08 P11', BASE, """        for out_name, remote_specs in self.remote_outputs.items():
            for remote_spec in remote_specs:
                dest_rank, dest_tag, delay = remote_spec
                # avoid""", """        for out_name in self.remote_outputs:
            for dest_rank, dest_tag, delay in self.remote_outputs[out_name]:
                # avoid""")
QQ('P21 P08', BASE, """                for item in self.outputs[out_name] if isinstance(self.outputs[out_name], list) else [self.outputs[out_name]]:
                    self.send_remote_output(item, dest_rank, dest_tag, first_mpi_send, out_name)
""", """                out = self.outputs[out_name]
                if not isinstance(out, list):
                    out = [out]
                for item in out:
                    self.send_remote_output(item, dest_rank, dest_tag, first_mpi_send=first_mpi_send, out_name=out_name)
""")
QQ('P21 P08', BASE, """                if delay < 0 and skip_delayed:
""", """                delayed = delay < 0
                if skip_delayed and delayed:
""")
QQ('P21 P08', BASE, """        if first_mpi_send or not dest_tag in self.sent_valid:
            if MPI_SEND_DBG: print(process_rank, 'SEND with Pickle', dest_tag, flush=True)
            xp_orig = item.xp
            item.xp = 0            
            process_comm.ibsend(item, dest=dest_rank, tag=dest_tag)
            item.xp = xp_orig
""", """        if first_mpi_send or dest_tag not in self.sent_valid:
            if MPI_SEND_DBG: print(process_rank, 'SEND with Pickle', dest_tag, flush=True)
            xp_orig, item.xp = item.xp, 0
            try:
                process_comm.ibsend(item, dest=dest_rank, tag=dest_tag)
            finally:
                item.xp = xp_orig
""")
QQ('P10 P08', LOOP, """            for element in self.trigger_lists[i]:
                try:
                    if element.inputs_changed:
                        element.trigger()
                except:
                    print('Exception in', element.name, flush=True)
                    raise
""", """            for element in [x for x in self.trigger_lists[i] if x.inputs_changed]:
                try:
                    element.trigger()
                except Exception:
                    print('Exception in', element.name, flush=True)
                    raise
""")
QQ('P10 P08', LOOP, """            for element in self.trigger_lists[i]:
                try:
                    if element.inputs_changed:
                        element.trigger()
                except:
                    print('Exception in', element.name, flush=True)
                    raise
""", """            for element in self.trigger_lists[i]:
                if not element.inputs_changed:
                    continue
                try:
                    element.trigger()
                except BaseException:
                    print('Exception in', element.name, flush=True)
                    raise
""")
QQ('P10 P08', LOOP, """        last_iter = (self.iter_counter == self.niters()-1)

        for i in sorted(self.trigger_lists.keys()):
            # all the""", """        last_iter = self.iter_counter + 1 == self.niters()

        for i in sorted(self.trigger_lists):
            # all the""")
QQ('P10 P08', LOOP, """        last_iter = (self.iter_counter == self.niters()-1)

        for i in sorted(self.trigger_lists.keys()):
            # all the""", """        last_iter = (self.iter_counter == self.niters()-1)

        for i, _ in sorted(self.trigger_lists.items(), key=lambda x: x[0]):
            # all the""")
QQ('P10 P08', LOOP, """        for i in sorted(self.trigger_lists.keys()):
            for element in self.trigger_lists[i]:
                try:
                    element.finalize()
                except:
                    print('Exception in', element.name)
                    raise
""", """        groups = [self.trigger_lists[i] for i in sorted(self.trigger_lists)]
        for group in groups:
            for element in group:
                try:
                    element.finalize()
                except Exception as e:
                    print('Exception in', element.name, e)
                    raise
""")
QQ('P21 P08', CONN, """        return list(flatten(v.get(target_device_idx) for v in self.input_values))
""", """        values = []
        for v in self.input_values:
            values.append(v.get(target_device_idx))
        return list(flatten(values))
""")
QQ('P21 P08', CONN, """        values_list = super().get(target_device_idx)
        if len(values_list) > 1:
            raise ValueError('InputValue contains more than one item')
        if len(values_list) == 0:
            if self.optional:
                return None
            else:
""", """        values_list = super().get(target_device_idx)
        n = len(values_list)
        if n > 1:
            raise ValueError('InputValue contains more than one item')
        if not values_list:
            if self.optional:
                return None
            else:
""")
QQ('P21 P08', CONN, """        if self.remote_rank is None:
            if self.output_ref is None:
                self.cloned_value = None
                return None

            elif self.output_ref.target_device_idx == target_device_idx:
                self.cloned_value = self.output_ref
                return self.cloned_value

        if self.remote_rank is None:
            value = self.output_ref
        else:
            value = self.receive_new_value(first_mpi_receive=self.cloned_value is None)
""", """        first = self.cloned_value is None
        if self.remote_rank is not None:
            value = self.receive_new_value(first)
        else:
            value = self.output_ref
            if value is None:
                self.cloned_value = None
                return None
            if value.target_device_idx == target_device_idx:
                self.cloned_value = value
                return value
""")
QQ('P21 P08', DATA, """            if self_type not in array_types:
                continue

            dest_attr""", """            if not (self_type in array_types):
                continue
            dest_attr""")
QQ('P21 P08', DATA, """                if DtD:
                    # Performance warnings here are expected, because we might
                    # trigger a peer-to-peer transfer between devices
                    with warnings.catch_warnings():
                        if self.PerformanceWarning:
                            warnings.simplefilter("ignore", category=self.PerformanceWarning)
                        setattr(destobj, attr, cp.asarray(self_attr))
                if DtH:
                    # Do not set blocking=True for cupy 12.x compatibility.
                    # Blocking is True by default in later versions anyway
                    setattr(destobj, attr, self_attr.get())
                if HtD:
                    setattr(destobj, attr, cp.asarray(self_attr))
                if HtH:
                    setattr(destobj, attr, np.asarray(self_attr))
""", """                new = self_attr
                if DtD:
                    with warnings.catch_warnings():
                        if self.PerformanceWarning:
                            warnings.simplefilter("ignore", category=self.PerformanceWarning)
                        new = cp.asarray(self_attr)
                elif DtH:
                    new = self_attr.get()
                elif HtD:
                    new = cp.asarray(self_attr)
                elif HtH:
                    new = np.asarray(self_attr)
                setattr(destobj, attr, new)
""")
QQ('P20 P19 P08', SIM, """            if isinstance(output_name, str):
                maxdelay = self.output_delay(output_name)
            elif isinstance(output_name, list):
                maxdelay = -1
                if len(output_name) > 0:
                    maxdelay = max([self.output_delay(x) for x in output_name])
            if maxdelay == 0:
                return False
        return True
""", """            names = [output_name] if isinstance(output_name, str) else output_name
            if any(self.output_delay(x) == 0 for x in names):
                return False
        return True
""")
QQ('P20 P19 P08', SIM, """                for x in outputs_list:
                    owner = self.output_owner(x)
                    delay = self.output_delay(x)
                    if owner == obj_name and delay < 0:
                        # Delayed input detected
                        return True
        return False
""", """                for x in outputs_list:
                    output = self.split_output(x)
                    if output.obj_name != obj_name:
                        continue
                    if output.delay < 0:
                        return True
        return False
""")
QQ('P20 P19 P08', SIM, """                for x in outputs_list:
                    owner = self.output_owner(x)
                    delay = self.output_delay(x)
                    if owner == obj_name and delay < 0:
                        # Delayed input detected
                        return True
        return False
""", """                if any(self.output_owner(x) == obj_name and self.output_delay(x) < 0 for x in outputs_list):
                    return True
        return False
""")
QQ('P20 P19 P08', SIM, """        for index in itertools.count():
            leaves = [name for name, pars in params.items() if self.is_leaf(pars)]
            if len(leaves) == 0:
                break
            start = len(params)
            for leaf in leaves:
                if self.has_delayed_output(leaf, params):
                    continue
                order.append(leaf)
                order_index.append(index)
                del params[leaf]
                self.remove_inputs(params, leaf)
            end = len(params)
            if start == end:
""", """        index = -1
        while True:
            index += 1
            leaves = [name for name in params if self.is_leaf(params[name])]
            if not leaves:
                break
            placed = 0
            for leaf in leaves:
                if not self.has_delayed_output(leaf, params):
                    order.append(leaf)
                    order_index.append(index)
                    params.pop(leaf)
                    self.remove_inputs(params, leaf)
                    placed += 1
            if placed == 0:
""")
QQ('P19 P08 P20', SIM, """            pars = params[key]
            for name, value in pars.items():
                if name.endswith('_ref'):
                    objlist = value if type(value) is list else [value]
                    for output in objlist:
                        owner = self.output_owner(output)
                        if owner not in build_order:
                            add_to_build_order(owner)

            build_order.append(key)
""", """            for name, value in params[key].items():
                if not name.endswith('_ref'):
                    continue
                for output in (value if isinstance(value, list) else [value]):
                    add_to_build_order(self.output_owner(output))

            build_order.append(key)
""")
M('P11', 'V', BASE, "        for input_name, input_obj in self.local_inputs.items():\n            if type(input_obj)", "        for input_name, input_obj in list(self.local_inputs.items())[1:]:\n            if type(input_obj)")
M('P11', 'V', BASE, """            for tt in tt_list:
                if tt is not None and tt >= self.current_time:
                    return True
        else:
            return False
""", """            fresh = any(tt is not None and tt >= self.current_time for tt in tt_list)
        return fresh
""")
# ---- P22 -------------------------------------------------------------------
DS = 'processing_objects/data_store.py'
DO = 'processing_objects/data_source.py'
DB = 'processing_objects/data_buffer.py'
M('P22', 'V', DS, "        if self.current_time < self.start_time:\n            return\n", "        if self.current_time <= self.start_time:\n            return\n")
M('P22', 'V', DS, "item.generation_time == self.current_time:\n                if not self._should", "item.generation_time >= 0:\n                if not self._should")
M('P22', 'V', DS, "                v = cpuArray(value, force_copy=True)\n", "                v = cpuArray(value)\n")
M('P22', 'V', DS, "                self.storage[k][self.current_time] = v\n", "                self.storage[k][self.iter_counter] = v\n")
M('P22', 'V', DS, "                if not self._should_store_input(k):\n                    continue\n", "                if not self._should_store_input(k):\n                    break\n")
M('P22', 'V', DS, "        return (self.input_sample_counters[input_name] - 1) % every == 0\n", "        return self.input_sample_counters[input_name] % every == 0\n")
M('P22', 'V', DS, "every = self.downsample_factor_by_input.get(input_name, self.downsample_factor)\n        # The", "every = self.downsample_factor\n        # The")
M('P22', 'V', DS, "            if self.iter_counter % self.split_size == 0:\n", "            if self.iter_counter % self.split_size == 1:\n")
M('P22', 'V', DS, "                self.save()\n                self.init_storage()\n", "                self.save()\n")
M('P22', 'V', DS, "                self.save()\n                self.init_storage()\n", "                self.init_storage()\n                self.save()\n")
M('P22', 'V', DS, "        elif pending and len(self.storage) > 0:\n", "        elif pending and len(self.storage) == 0:\n")
M('P22', 'V', DS, "            if not os.path.exists(fullpath):\n                os.makedirs(fullpath)\n", "            if True:\n                os.makedirs(fullpath, exist_ok=True)\n")
M('P22', 'V', DS, "        self.tn_dir = fullpath\n", "        self.tn_dir = os.path.join(self.tn_dir_orig, tn)\n")
M('P22', 'V', DS, "        times = {k: np.array(list(v.keys()), dtype=np.uint64)\n            for k, v in self.storage.items() if isinstance(v, OrderedDict)}\n", "        times = {k: np.array(list(v.keys()), dtype=self.dtype)\n            for k, v in self.storage.items() if isinstance(v, OrderedDict)}\n")
M('P22', 'V', DS, "hdul = fits.HDUList([hdu_data, hdu_time])", "hdul = fits.HDUList([fits.PrimaryHDU(times[k], header=hdr), fits.ImageHDU(data[k], header=hdr)])")
M('P22', 'V', DS, "                filename = os.path.join(self.tn_dir, k + '.fits')", "                filename = os.path.join(self.tn_dir, 'data' + '.fits')")
M('P22', 'V', DS, "{'data': data[k], 'times': times[k], 'hdr': hdr}", "{'data': times[k], 'times': data[k], 'hdr': hdr}")
M('P22', 'V', DS, "        self.start_time = self.seconds_to_t(start_time)", "        self.start_time = start_time")
M('P22', 'V', DO, "            if self.current_time in storage_dict:\n", "            if self.current_time not in storage_dict:\n")
M('P22', 'V', DO, "                self.outputs[k].generation_time = self.current_time\n            else:", "            else:")
M('P22', 'V', DO, "self.outputs[k].xp.array(storage_dict[self.current_time])", "self.outputs[k].xp.array(storage_dict[min(storage_dict)])")
M('P22', 'V', DO, "            times = hdul[1].data.copy()", "            times = hdul[0].data.copy()")
M('P22', 'V', DB, "                self.storage[k][self.step_counter] = v.copy()", "                self.storage[k][self.step_counter] = v")
M('P22', 'V', DB, "                self.storage[k][self.step_counter] = v.copy()", "                self.storage[k][self.step_counter // 2] = v.copy()")
M('P22', 'V', DB, "        if self.step_counter >= self.buffer_size:", "        if self.step_counter > self.buffer_size:")
M('P22', 'V', DB, "        self.storage.clear()\n        self.step_counter = 0\n", "        self.storage.clear()\n")
M('P22', 'V', DB, "        if self.step_counter > 0:\n            self.emit_buffered_data()\n", "        if self.step_counter > self.buffer_size:\n            self.emit_buffered_data()\n")
M('P22', 'V', DB, "values = self.xp.array(list(data_dict.values()))", "values = self.xp.array(list(data_dict.values())[1:])")
M('P22', 'V', DB, "                self.buffered_outputs[output_name].generation_time = self.current_time\n", "                self.buffered_outputs[output_name].generation_time = self.step_counter\n")
QQ('P22 P08', DS, """            if item is not None and item.generation_time == self.current_time:
                if not self._should_store_input(k):
                    continue
                value = item.get_value()
                v = cpuArray(value, force_copy=True)
                self.storage[k][self.current_time] = v
""", """            if item is None or item.generation_time != self.current_time:
                continue
            if self._should_store_input(k):
                self.storage[k].update({self.current_time: cpuArray(item.get_value(), force_copy=True)})
""")
QQ('P22 P08', DS, """        self.iter_counter += 1
        if self.split_size > 0:
            if self.iter_counter % self.split_size == 0:
                self.create_TN_folder(
                    suffix=f'_{self.iter_counter - self.split_size + self.first_suffix}'
                )
                self.save()
                self.init_storage()
""", """        self.iter_counter += 1
        self._check_chunk()

    def _check_chunk(self):
        if self.split_size <= 0 or self.iter_counter % self.split_size:
            return
        start = self.iter_counter - self.split_size + self.first_suffix
        self.create_TN_folder(suffix=f'_{start}')
        self.save()
        self.storage = defaultdict(OrderedDict)
""")
QQ('P22 P08', DS, """        times = {k: np.array(list(v.keys()), dtype=np.uint64)
            for k, v in self.storage.items() if isinstance(v, OrderedDict)}
        data = {k: np.array(list(v.values()), dtype=self.dtype)
            for k, v in self.storage.items() if isinstance(v, OrderedDict)}

        for k,v in times.items():
            try:
""", """        for k, samples in self.storage.items():
            times = {k: np.array(list(samples.keys()), dtype=np.uint64)}
            data = {k: np.array(list(samples.values()), dtype=self.dtype)}
            try:
""")
QQ('P22 P08', DS, """        iter = None
        while True:
            tn = f'{self.today}'
            fullpath = os.path.join(self.tn_dir_orig, tn) + suffix
            if iter is not None:
                fullpath += f'.{iter}'
            if not os.path.exists(fullpath):
                os.makedirs(fullpath)
                break
            if iter is None:
                iter = 0
            else:
                iter += 1
        self.tn_dir = fullpath
""", """        base = os.path.join(self.tn_dir_orig, f'{self.today}') + suffix
        fullpath = base
        n = 0
        while os.path.exists(fullpath):
            fullpath = base + f'.{n}'
            n += 1
        os.makedirs(fullpath)
        self.tn_dir = fullpath
""")
QQ('P22 P08', DO, """            if self.current_time in storage_dict:
                self.outputs[k].set_value(self.outputs[k].xp.array(storage_dict[self.current_time]))
                self.outputs[k].generation_time = self.current_time
            else:
                if self.verbose:
                    print(f'Warning: No data for key {k} at time {self.current_time}')
""", """            out = self.outputs[k]
            value = storage_dict.get(self.current_time)
            if value is None:
                if self.verbose:
                    print(f'Warning: No data for key {k} at time {self.current_time}')
                continue
            out.set_value(out.xp.array(value))
            out.generation_time = self.current_time
""")
QQ('P22 P08', DO, """        self.storage[name] = { t:data[i] for i, t in enumerate(times.tolist())}

    def size""", """        self.storage[name] = dict(zip(times.tolist(), data))

    def size""")
QQ('P22 P08', DO, """        self.storage[name] = { t:data[i] for i, t in enumerate(times.tolist())}

    def size""", """        self.storage[name] = {}
        for i, t in enumerate(times.tolist()):
            self.storage[name][t] = data[i]

    def size""")
QQ('P22 P08', DB, """        self.step_counter += 1

        if self.step_counter >= self.buffer_size:
            self.emit_buffered_data()
            self.reset_buffers()
""", """        self.step_counter += 1
        if self.step_counter < self.buffer_size:
            return
        self.emit_buffered_data()
        self.reset_buffers()
""")
M('P22', 'V', DO, "        if name in self.items or name in self.storage:", "        if name in self.items:")

# ---- P23 units of time
WI = 'processing_objects/windowed_integration.py'
PUC = 'processing_objects/pyr_pupdata_calibrator.py'
DPUC = 'processing_objects/dynamic_pyr_pupdata_calibrator.py'
M('P23', 'V', 'base_time_obj.py', "return int(round(seconds * self._time_resolution))", "return int(seconds * self._time_resolution)")
M('P23', 'V', 'base_time_obj.py', "return float(t) / float(self._time_resolution)", "return float(t // self._time_resolution)")
M('P23', 'V', 'processing_objects/data_store.py', "        self.start_time = self.seconds_to_t(start_time)", "        self.start_time = start_time")
M('P23', 'V', 'processing_objects/data_store.py', "        if self.current_time < self.start_time:", "        if self.current_time_seconds < self.start_time:")
M('P23', 'V', 'processing_objects/atmo_evolution.py', "[self.t_to_seconds(self.current_time - self.last_t)]", "[self.current_time_seconds - self.last_t]")
M('P23', 'V', 'processing_objects/atmo_evolution.py', "        self.last_t = self.current_time\n", "        self.last_t = self.current_time_seconds\n")
M('P23', 'V', 'processing_objects/atmo_evolution.py', "[self.t_to_seconds(self.current_time - self.last_t)]", "[self.current_time - self.last_t]")
M('P23', 'V', 'processing_objects/ccd.py', "        self.loop_dt = self.seconds_to_t(simul_params.time_step)", "        self.loop_dt = simul_params.time_step")
M('P23', 'V', 'processing_objects/ccd.py', "factor=self.t_to_seconds(self.loop_dt) * self._bandw", "factor=self.loop_dt * self._bandw")
M('P23', 'V', 'processing_objects/psf.py', "        if self.current_time_seconds >= self.start_time:", "        if self.current_time >= self.start_time:")
M('P23', 'V', 'processing_objects/psf_coronagraph.py', "        if self.current_time_seconds >= self.start_time:", "        if self.current_time >= self.start_time:")
M('P23', 'V', 'processing_objects/sh_slopec.py', "self.current_time_seconds > self.vec_wei_pix_rad_t", "self.current_time > self.vec_wei_pix_rad_t")
M('P23', 'V', 'processing_objects/slopec.py', "self.weight_int_pixel_dt = self.seconds_to_t(weight_int_pixel_dt)", "self.weight_int_pixel_dt = weight_int_pixel_dt")
M('P23', 'V', PUC, "            self.dt = self.seconds_to_t(dt)", "            self.dt = dt")
M('P23', 'V', DPUC, "self.t_to_seconds(self.dt)", "self.t_to_seconds(self.current_time_seconds)")
M('P23', 'V', 'processing_objects/data_print.py', "        self.print_dt = self.seconds_to_t(print_dt)", "        self.print_dt = print_dt")
M('P23', 'V', 'processing_objects/demodulator.py', "        self.demod_dt = self.seconds_to_t(demod_dt)", "        self.demod_dt = demod_dt")
M('P23', 'V', 'processing_objects/demodulator.py', "        dt = self.t_to_seconds(self.loop_dt)", "        dt = self.loop_dt")
M('P23', 'V', 'processing_objects/gain_optimizer.py', "        t = self.current_time\n", "        t = self.current_time_seconds\n")
M('P23', 'V', 'processing_objects/base_sprint_estimator.py', "        self.estimation_dt = self.seconds_to_t(estimation_dt)", "        self.estimation_dt = estimation_dt")
M('P23', 'V', 'processing_objects/sprint_pyr.py', "current_time = self.internal_wfs.seconds_to_t(step * time_step)", "current_time = self.simul_params.time_step * step")
M('P23', 'V', 'processing_objects/phase_screen_cube.py', "        dt = self.time_vector-self.t_to_seconds(t)", "        dt = self.t_to_seconds(self.time_vector-self.t_to_seconds(t))")
M('P23', 'V', WI, "        self.start_time = self.seconds_to_t(start_time)", "        self.start_time = start_time")
M('P23', 'V', 'processing_objects/base_generator.py', "self.current_time_gpu[:] = self.current_time_seconds", "self.current_time_gpu[:] = self.current_time")
M('P23', 'V', 'loop_control.py', "        self.t0 = self.seconds_to_t(t0)", "        self.t0 = t0")
M('P23', 'V', 'loop_control.py', "        self.dt = self.seconds_to_t(dt)", "        self.dt = dt")
M('P23', 'V', 'base_processing_obj.py', "        self.current_time_seconds = self.t_to_seconds(self.current_time)", "        self.current_time_seconds = self.current_time")
M('P23', 'V', 'processing_objects/psf.py', "        self.start_time = start_time", "        self.start_time = self.seconds_to_t(start_time)")
QQ('P23', 'processing_objects/ccd.py', "        self.loop_dt = self.seconds_to_t(simul_params.time_step)", "        step = simul_params.time_step\n        self.loop_dt = int(round(step * self._time_resolution))")
QQ('P23', 'processing_objects/data_store.py', "        if self.current_time < self.start_time:\n            return", "        started = self.current_time >= self.start_time\n        if not started:\n            return")
QQ('P23', 'processing_objects/data_store.py', "        if self.current_time < self.start_time:", "        if self.t_to_seconds(self.current_time) < self.t_to_seconds(self.start_time):")
QQ('P23', 'processing_objects/psf.py', "        if self.current_time_seconds >= self.start_time:", "        if self.current_time >= self.seconds_to_t(self.start_time):")
QQ('P23', 'base_time_obj.py', "return int(round(seconds * self._time_resolution))", "ticks = round(self._time_resolution * seconds)\n        return int(ticks)")
QQ('P23', 'base_time_obj.py', "return int(round(seconds * self._time_resolution))", "import math\n        return math.floor(seconds * self._time_resolution + 0.5)")
QQ('P23', 'base_time_obj.py', "return float(t) / float(self._time_resolution)", "return t / self._time_resolution")
QQ('P23', PUC, "            self.dt = self.seconds_to_t(dt)", "            dt = self.seconds_to_t(dt)\n            self.dt = dt")
QQ('P23', 'processing_objects/atmo_evolution.py', "[self.t_to_seconds(self.current_time - self.last_t)]", "[self.t_to_seconds(self.current_time) - self.t_to_seconds(self.last_t)]")

# ---- P24 calibration files
PO = 'processing_objects/'
IMC, MIMC, RC, MRC, SNC, SSC, DDC = (PO + x for x in ('im_calibrator.py', 'multi_im_calibrator.py', 'rec_calibrator.py', 'multi_rec_calibrator.py', 'sn_calibrator.py', 'sh_subap_calibrator.py', 'dynamic_dark_calibrator.py'))
PUC, DPUC = PO + 'pyr_pupdata_calibrator.py', PO + 'dynamic_pyr_pupdata_calibrator.py'
M('P24', 'V', IMC, "self.intmat.save(self.im_path, overwrite=self.overwrite)", "self.intmat.save(os.path.join(self.data_dir, self.im_path), overwrite=self.overwrite)")
M('P24', 'V', IMC, "self.intmat.save(self.im_path, overwrite=self.overwrite)", "self.intmat.save(self.im_path, overwrite=True)")
M('P24', 'V', IMC, "self.intmat.save(self.im_path, overwrite=self.overwrite)", "self.intmat.save(self.im_path)")
M('P24', 'V', MIMC, "im.save(self.im_paths[i], overwrite", "im.save(self.im_paths[0], overwrite")
M('P24', 'V', MIMC, "            self.im_paths.append(path)\n            if os.path.exists(path)", "            self.im_paths.append(path)\n            if os.path.exists(self.im_paths[0])")
M('P24', 'V', MIMC, "if os.path.exists(self.full_im_path) and not self.overwrite:", "if os.path.exists(self.full_im_tag) and not self.overwrite:")
M('P24', 'V', MRC, "        os.makedirs(self._data_dir, exist_ok=True)\n", "")
M('P24', 'V', MRC, "self._rec_filename+str(i) + '.fits'", "self._rec_filename + '.fits'")
M('P24', 'V', MRC, "            rec_path = self.rec_path(i)\n            if rec_path and", "            rec_path = self.rec_path(i)\n            if not rec_path and")
M('P24', 'V', MRC, "fullrec.save(full_rec_path, overwrite=self._overwrite)", "fullrec.save(self.rec_path(0), overwrite=self._overwrite)")
M('P24', 'V', RC, "            rec_filename = tag_template\n        else:\n            rec_filename = rec_tag", "            rec_filename = rec_tag\n        else:\n            rec_filename = tag_template")
M('P24', 'V', RC, "        if not rec_path.endswith('.fits'):\n            rec_path += '.fits'\n        if os.path.exists(rec_path) and not self.overwrite:\n            raise FileExistsError(f'REC file {rec_path} already exists, please remove it')",
  "        if os.path.exists(rec_path) and not self.overwrite:\n            raise FileExistsError(f'REC file {rec_path} already exists, please remove it')\n        if not rec_path.endswith('.fits'):\n            rec_path += '.fits'")
M('P24', 'V', RC, "if os.path.exists(rec_path) and not self.overwrite", "if os.path.exists(rec_path) and self.overwrite")
M('P24', 'V', SNC, "        os.makedirs(os.path.dirname(file_path), exist_ok=True)\n", "")
M('P24', 'V', SNC, "        self.slopes.save(file_path,overwrite=self.overwrite)", "        self.slopes.save(filename,overwrite=self.overwrite)")
M('P24', 'V', SSC, "self.subaps.save(os.path.join(self._data_dir, filename)", "self.subaps.save(os.path.join(self._data_dir, self._filename)")
M('P24', 'V', DDC, "        if filename is None:\n            filename = utils.make_tn()\n\n        if not filename.endswith('.fits'):\n            filename += '.fits'\n        file_path", "        if filename is None:\n            filename = utils.make_tn()\n        file_path")
M('P24', 'V', DDC, "self.darkframe.save(file_path, overwrite=self.overwrite)", "self.darkframe.save(file_path, overwrite=not self.overwrite)")
M('P24', 'V', 'data_objects/intmat.py', "overwrite=overwrite)", "overwrite=True)")
M('P24', 'V', PUC, "        file_path = os.path.join(self.data_dir, filename)", "        file_path = os.path.join(self.data_dir, 'pupils', filename)")
QQ('P24 P07', IMC, "self.intmat.save(self.im_path, overwrite=self.overwrite)", "target = self.im_path\n        self.intmat.save(filename=target, overwrite=bool(self.overwrite))")
QQ('P24', RC, "        rec_path = os.path.join(self.data_dir, rec_filename)\n        if not rec_path.endswith('.fits'):\n            rec_path += '.fits'\n", "        if not rec_filename.endswith('.fits'):\n            rec_filename = rec_filename + '.fits'\n        rec_path = os.path.join(self.data_dir, rec_filename)\n")
QQ('P24', SNC, "        filename = self._filename\n        if not filename.endswith('.fits'):\n            filename += '.fits'\n        file_path = os.path.join(self._data_dir, filename)\n        os.makedirs(os.path.dirname(file_path), exist_ok=True)\n        self.slopes.save(file_path,overwrite=self.overwrite)",
   "        os.makedirs(self._data_dir, exist_ok=True)\n        self.slopes.save(self.sn_path, overwrite=self.overwrite)")
QQ('P24', MRC, "        for i, intmat in enumerate(ims):\n            if self.rec_path(i):\n", "        for i in range(len(ims)):\n            intmat = ims[i]\n            if self.rec_path(i) is not None:\n")
QQ('P24', MIMC, "            path = os.path.join(self.data_dir, f\"{self.im_tag[i]}.fits\")", "            path = os.path.join(self.data_dir, self.im_tag[i] + '.fits')")
QQ('P24', DDC, "        if not filename.endswith('.fits'):\n            filename += '.fits'\n        file_path = os", "        if filename[-5:] != '.fits':\n            filename = f'{filename}.fits'\n        file_path = os")
QQ('P24', DDC, "        os.makedirs(os.path.dirname(file_path), exist_ok=True)\n", "        dirname, _ = os.path.split(file_path)\n        os.makedirs(dirname, exist_ok=True)\n")
QQ('P24', SSC, "self.subaps.save(os.path.join(self._data_dir, filename), overwrite=self._overwrite)", "self.subaps.save(file_path, self._overwrite)")

# ---- P25 averages
PSFF, PSFC = PO + 'psf.py', PO + 'psf_coronagraph.py'
M('P25', 'V', PSFF, "            self.count += 1\n            self.int_sr", "            self.int_sr")
M('P25', 'V', PSFF, "        if self.current_time_seconds >= self.start_time:\n            self.count += 1\n", "        self.count += 1\n        if self.current_time_seconds >= self.start_time:\n")
M('P25', 'V', PSFF, "        self.count = 0\n", "        self.count = 1\n")
M('P25', 'V', PSFF, "            self.int_sr.value /= self.count\n", "")
M('P25', 'V', PSFF, "variance = self._sum_psf_squared / self.count - self", "variance = self._sum_psf_squared - self")
M('P25', 'V', PSFF, """            self.int_psf.value /= self.count
            self.int_sr.value /= self.count
            variance = self._sum_psf_squared / self.count - self.int_psf.value ** 2
""", """            variance = self._sum_psf_squared / self.count - self.int_psf.value ** 2
            self.int_psf.value /= self.count
            self.int_sr.value /= self.count
""")
M('P25', 'V', PSFF, "self._sum_psf_squared += self.psf.value ** 2", "self._sum_psf_squared += self.psf.value")
M('P25', 'V', PSFF, "self._sum_psf_squared += self.psf.value ** 2", "self._sum_psf_squared += self.int_psf.value ** 2")
M('P25', 'V', PSFF, "        self.int_psf.value = self.xp.zeros(s, dtype=self.dtype)", "        self.int_psf.value = self.xp.ones(s, dtype=self.dtype)")
M('P25', 'V', PSFF, "            self.int_psf.value /= self.count\n            self.int_sr", "            self.int_psf.value /= (self.count - 1)\n            self.int_sr")
M('P25', 'V', PSFC, "        if self.current_time_seconds >= self.start_time:\n            self.int_coronagraph_psf", "        if self.current_time_seconds > self.start_time:\n            self.int_coronagraph_psf")
M('P25', 'V', PSFC, "        if self.current_time_seconds >= self.start_time:\n            self.int_coronagraph_psf.value += self.coronagraph_psf.value\n", "        self.int_coronagraph_psf.value += self.coronagraph_psf.value\n        if self.current_time_seconds >= self.start_time:\n")
M('P25', 'V', PSFC, "            self.int_coronagraph_psf.value /= self.count\n", "")
M('P25', 'V', PSFC, "        super().post_trigger()\n\n        if self.current_time_seconds", "        super().post_trigger()\n        self.count += 1\n\n        if self.current_time_seconds")
M('P25', 'V', SNC, "        self._n_iter += 1", "            self._n_iter += 1")
M('P25', 'V', SNC, "        self._n_iter = 0", "        self._n_iter = 1")
M('P25', 'V', SNC, "            self.slopes.slopes += self.local", "            self.slopes.slopes = self.local")
M('P25', 'V', SNC, "        self.slopes.slopes /= self._n_iter\n", "        if self._n_iter > 2:\n            self.slopes.slopes /= self._n_iter\n")
M('P25', 'V', IMC, "                self.intmat.modes[mode] += slopes / commands[idx]\n                self.count_commands[mode] += 1", "                self.intmat.modes[mode] += slopes / commands[idx]\n            self.count_commands[mode] += 1")
M('P25', 'V', IMC, "                self.count_commands[mode] += 1", "                self.count_commands[mode] = 1")
M('P25', 'V', IMC, "                self.intmat.modes[mode] /= self.count_commands[mode]", "                self.intmat.modes[mode] /= self.count_commands[0]")
M('P25', 'V', IMC, "            if self.count_commands[mode] > 0:", "            if self.count_commands[mode] > 1 and mode > 0:")
M('P25', 'V', MIMC, "                        self.count_commands[i][mode] += 1", "                    self.count_commands[i][mode] += 1")
M('P25', 'V', MIMC, "                        self.count_commands[i][mode] += 1", "                        self.count_commands[0][mode] += 1")
M('P25', 'V', MIMC, "im.modes[mode] /= self.count_commands[i][mode]", "im.modes[mode] /= self.count_commands[mode][i]")
QQ('P25', DDC, "            self.integrated_pixels *= 0\n\n    def prepare", "\n    def prepare")
M('P25', 'V', DDC, "(self.integrated_pixels / self.ordered_frames)", "(self.integrated_pixels / self.nframes)")
M('P25', 'V', DDC, "            self.ordered_frames = self.nframes\n            self.integrated_pixels *= 0\n", "            self.ordered_frames = self.nframes\n")
M('P25', 'V', DDC, "        self.counter -= 1\n\n        if self.counter == 0:", "        self.counter -= 1\n\n        if self.counter <= 1:")
QQ('P25', PSFF, "            self.count += 1\n            self.int_sr.value += self.sr.value\n", "            self.int_sr.value = self.int_sr.value + self.sr.value\n            self.count = self.count + 1\n")
QQ('P25', PSFF, "        if self.count > 0:\n            self.int_psf.value /= self.count\n            self.int_sr.value /= self.count\n            variance = self._sum_psf_squared / self.count - self.int_psf.value ** 2\n",
   "        n = self.count\n        if n > 0:\n            mean = self.int_psf.value / n\n            mean_squares = self._sum_psf_squared / n\n            self.int_psf.value = mean\n            self.int_sr.value /= n\n            variance = mean_squares - mean ** 2\n")
QQ('P25', PSFF, "self._sum_psf_squared += self.psf.value ** 2", "self._sum_psf_squared += self.psf.value * self.psf.value")
QQ('P25', SNC, """        if self.slopes is None:
            self.slopes = Slopes(slopes=self.local_inputs['in_slopes'].slopes.copy(), target_device_idx=self.target_device_idx, precision=self.precision)
        else:
            self.slopes.slopes += self.local_inputs['in_slopes'].slopes.copy()
        self._n_iter += 1
""", """        self._n_iter += 1
        if self.slopes is not None:
            self.slopes.slopes += self.local_inputs['in_slopes'].slopes
            return
        self.slopes = Slopes(slopes=self.local_inputs['in_slopes'].slopes.copy(), target_device_idx=self.target_device_idx, precision=self.precision)
""")
QQ('P25', IMC, """        for mode in range(self.nmodes):
            if self.count_commands[mode] > 0:
                self.intmat.modes[mode] /= self.count_commands[mode]
""", """        for mode in range(self.nmodes):
            n = self.count_commands[mode]
            if n == 0:
                continue
            self.intmat.modes[mode] = self.intmat.modes[mode] / n
""")
QQ('P25', MIMC, "                    for i, (im, ss) in enumerate(zip(self.outputs['out_intmat_list'], slopes)):\n                        im.modes[mode] += ss / cc[idx]\n", "                    for i in range(len(slopes)):\n                        im = self.outputs['out_intmat_list'][i]\n                        im.modes[mode] += slopes[i] / cc[idx]\n")
QQ('P25', DDC, "        self.counter -= 1\n\n        if self.counter == 0:\n            self.darkframe.pixels[:] = (self.integrated_pixels / self.ordered_frames).astype(self.darkframe.pixels.dtype)", "        self.counter = self.counter - 1\n\n        if not self.counter:\n            mean = self.integrated_pixels / self.ordered_frames\n            self.darkframe.pixels[:] = mean.astype(self.darkframe.pixels.dtype)")

M('P10', 'V', 'loop_control.py', """            if MPI_DBG: print(process_rank, 'before trigger', flush=True)
            for element in self.trigger_lists[i]:
""", """        for i in sorted(self.trigger_lists.keys()):
            for element in self.trigger_lists[i]:
""")
M('P10', 'V', 'loop_control.py', """            if MPI_DBG: print(process_rank, 'before trigger', flush=True)
            for element in self.trigger_lists[i]:
""", "")
M('P19', 'V', 'simul.py', "            my_params.update(pars2)\n", "            my_params = {**pars2, **my_params}\n")
M('P19', 'V', 'simul.py', "            my_params.update(pars2)\n", "            my_params = pars2 | my_params\n")
M('P19', 'V', 'simul.py', "            my_params.update(pars2)\n", "            pars2.update(my_params)\n            my_params = pars2\n")
M('P19', 'Q', 'simul.py', "            my_params.update(pars2)\n", "            my_params = {**my_params, **pars2}\n")
M('P19', 'Q', 'simul.py', "            my_params.update(pars2)\n", "            for k, v in my_params.items():\n                pars2.setdefault(k, v)\n            my_params = pars2\n")
M('P19', 'Q', 'simul.py', "            my_params = {}\n\n            if 'data_dir' in args and 'data_dir' not in my_params:", "            my_params = dict(pars2)\n\n            if 'data_dir' in args and 'data_dir' not in my_params:")
M('P19', 'V', 'simul.py', "            my_params.update(pars2)\n", "            my_params.update(pars2)\n            if 'data_dir' in args:\n                my_params['data_dir'] = cm.root_subdir(classname)\n")
M('P19', 'Q', 'simul.py', "            my_params.update(pars2)\n", "            my_params.update(pars2)\n            if 'data_dir' in args and 'data_dir' not in pars2:\n                my_params['data_dir'] = cm.root_subdir(classname)\n")
M('P17', 'V', 'data_objects/pupdata.py', "framesize = [int(hdr.get('FSIZEX')), int(hdr.get('FSIZEY'))]", "framesize = [int(hdr.get('FSIZEY')), int(hdr.get('FSIZEX'))]")
M('P17', 'Q', 'data_objects/pupdata.py', "framesize = [int(hdr.get('FSIZEX')), int(hdr.get('FSIZEY'))]", "framesize = tuple(int(hdr[k]) for k in ('FSIZEX', 'FSIZEY'))")
M('P14', 'V', 'processing_objects/base_operation.py', 'if self.mul or self.div or self.sum or self.sub or self.concat:', 'if self.mul or self.div or self.sum or self.sub:')
M('P14', 'V', 'processing_objects/base_operation.py', 'if self.mul or self.div or self.sum or self.sub or self.concat:', 'if self.mul or self.div or self.sub or self.concat:')
M('P14', 'Q', 'processing_objects/base_operation.py', 'if self.mul or self.div or self.sum or self.sub or self.concat:', 'if any([self.mul, self.div, self.sum, self.sub, self.concat]):')
M('P06', 'V', 'processing_objects/base_operation.py', 'self.out_value.value = self.xp.empty(len(value1.value) + len(value2.value), dtype=self.dtype)', "self.out_value.value = self.xp.empty(len(value1.value) + len(value2.value), dtype='float32')")
M('P09', 'V', 'processing_objects/modalrec_multirate.py', "                self.out_modes_list[i].value[:] = R_block @ s.slopes\n", "                self.out_modes_list[i] = BaseValue(value=R_block @ s.slopes, target_device_idx=self.target_device_idx, precision=self.precision)\n")
PO = 'processing_objects/'
M('P14','Q',PO+'base_operation.py',"""        if self.mul or self.div or self.sum or self.sub or self.concat:
            if value2 is None:
                raise ValueError('in_value2 has not been set')
""","""        needs_two = self.mul or self.div or self.sum or self.sub or self.concat
        if needs_two and value2 is None:
            raise ValueError('in_value2 has not been set')
""")
M('P14','Q',(PO+'base_operation.py',"""        if self.mul or self.div or self.sum or self.sub or self.concat:
            if value2 is None:
                raise ValueError('in_value2 has not been set')
""","""        self._require_value2()
"""),(PO+'base_operation.py',"""    def trigger_code(self):

        value1""","""    def _needs_value2(self):
        return self.mul or self.div or self.sum or self.sub or self.concat

    def _require_value2(self):
        if not self._needs_value2():
            return
        if self.local_inputs['in_value2'] is None:
            raise ValueError('in_value2 has not been set')

    def trigger_code(self):

        value1"""))
M('P14','Q',PO+'base_operation.py',"""        if self.mul or self.div or self.sum or self.sub or self.concat:
            if value2 is None:
                raise ValueError('in_value2 has not been set')
""","""        for flag in ('mul', 'div', 'sum', 'sub', 'concat'):
            if getattr(self, flag) and value2 is None:
                raise ValueError('in_value2 has not been set')
""")
M('P14','Q',(PO+'base_operation.py',"""                if self.mul:
                    out[:] = value1 * self.v2
                elif self.div:
                    out[:] = value1 / self.v2
                elif self.sum:
                    out[:] = value1 + self.v2
                elif self.sub:
                    out[:] = value1 - self.v2
                else:
                    raise ValueError('No operation defined')
""","""                if not (self.mul or self.div or self.sum or self.sub):
                    raise ValueError('No operation defined')
                if self.mul:
                    out[:] = value1 * self.v2
                if self.div:
                    out[:] = value1 / self.v2
                if self.sum:
                    out[:] = value1 + self.v2
                if self.sub:
                    out[:] = value1 - self.v2
"""))
M('P14','Q',PO+'base_operation.py',"""                if self.mul:
                    out[:] = value1 * self.v2
                elif self.div:
                    out[:] = value1 / self.v2
                elif self.sum:
                    out[:] = value1 + self.v2
                elif self.sub:
                    out[:] = value1 - self.v2
                else:
                    raise ValueError('No operation defined')
""","""                op = next((o for f, o in ((self.mul, self.xp.multiply), (self.div, self.xp.divide), (self.sum, self.xp.add), (self.sub, self.xp.subtract)) if f), None)
                if op is None:
                    raise ValueError('No operation defined')
                out[:] = op(value1, self.v2)
""")
M('P14','Q',(PO+'base_operation.py',"""        self.mul = mul
""","""        self.op = 'mul' if mul else 'div' if div else 'sum' if sum else 'sub' if sub else None
        self.mul = mul
"""),(PO+'base_operation.py',"""                if self.mul:
                    out[:] = value1 * self.v2
                elif self.div:
                    out[:] = value1 / self.v2
                elif self.sum:
                    out[:] = value1 + self.v2
                elif self.sub:
                    out[:] = value1 - self.v2
                else:
                    raise ValueError('No operation defined')
""","""                if self.op == 'mul':
                    out[:] = value1 * self.v2
                elif self.op == 'div':
                    out[:] = value1 / self.v2
                elif self.op == 'sum':
                    out[:] = value1 + self.v2
                elif self.op == 'sub':
                    out[:] = value1 - self.v2
                else:
                    raise ValueError('No operation defined')
"""))
M('P14','Q',PO+'electric_field_combinator.py',"""        if not has_list and not has_legacy or (has_list and has_legacy):
""","""        if has_list == has_legacy:
""")
M('P14','Q',PO+'electric_field_combinator.py',"""        if not has_list and not has_legacy or (has_list and has_legacy):
""","""        if bool(has_list) + bool(has_legacy) != 1:
""")
M('P14','Q',PO+'electric_field_combinator.py',"""        has_legacy = in_ef1 is not None and in_ef2 is not None
""","""        has_legacy = all(x is not None for x in (in_ef1, in_ef2))
""")
M('P14','Q',PO+'electric_field_combinator.py',"""        has_legacy = in_ef1 is not None and in_ef2 is not None
""","""        has_legacy = None not in (in_ef1, in_ef2)
""")
M('P14','Q',PO+'electric_field_combinator.py',"""        has_list = in_ef_list is not None and len(in_ef_list) > 0
""","""        has_list = bool(in_ef_list)
""")
M('P14','Q',PO+'sh_subap_calibrator.py',"""        if in_i is None and in_pixels is None:
            raise ValueError('One of input Pixel or Intensity object must be set')
        if in_i is not None and in_pixels is not None:
            raise ValueError('Only one of input Pixel or Intensity object must be set')
""","""        given = [x for x in (in_i, in_pixels) if x is not None]
        if len(given) == 0:
            raise ValueError('One of input Pixel or Intensity object must be set')
        if len(given) > 1:
            raise ValueError('Only one of input Pixel or Intensity object must be set')
""")
M('P14','Q',PO+'sh_subap_calibrator.py',"""        if self.local_inputs['in_i']:
""","""        use_intensity = self.local_inputs['in_pixels'] is None
        if use_intensity:
""")
M('P14','Q',PO+'sh_subap_calibrator.py',"""        if self.local_inputs['in_i']:
            image = self.local_inputs['in_i'].i
        else:
            image = self.local_inputs['in_pixels'].pixels
""","""        if self.local_inputs['in_pixels']:
            image = self.local_inputs['in_pixels'].pixels
        else:
            image = self.local_inputs['in_i'].i
""")
